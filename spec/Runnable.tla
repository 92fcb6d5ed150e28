------------------------------ MODULE Runnable ------------------------------
(***************************************************************************)
(* Which command sequences are runnable.  One action per command kind; a   *)
(* command whose guard fails ends the behaviour, and Reasons(c) is the set *)
(* of genuine reasons.  TLC enumerates every sequence over the alphabet    *)
(* and prints it with its verdict; each is replayed into the real check.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CASES)[1]
\* [inputs, nodes : Seq(Nat), len : Nat, doms : Seq(Seq(Nat)), kinds : Seq(STRING)]
Rng(s) == {s[i] : i \in DOMAIN s}
Nodes == Rng(Conf.nodes)
Doms == {Rng(Conf.doms[i]) : i \in DOMAIN Conf.doms}
Kinds == Rng(Conf.kinds)

VARIABLES live, done, seq, verdict
vars == << live, done, seq, verdict >>

Alphabet ==
     {[k |-> "N", n |-> n] : n \in Nodes}
  \cup {[k |-> "E", n |-> e[1], m |-> e[2]] : e \in {p \in Nodes \X Nodes : p[1] # p[2]}}
  \cup {[k |-> "M", n |-> n, s |-> s, t |-> t] : n \in Nodes, s \in Doms, t \in Doms}
  \cup {[k |-> k, n |-> n, d |-> d] : k \in {"X", "Z"}, n \in Nodes, d \in Doms}
  \cup {[k |-> "C", n |-> n] : n \in Nodes}

Uses(c) == CASE c.k = "E" -> {c.n, c.m} [] c.k = "N" -> {} [] OTHER -> {c.n}
Needs(c) == CASE c.k = "M" -> c.s \cup c.t [] c.k \in {"X", "Z"} -> c.d [] OTHER -> {}

\* All genuine reasons for refusing c in the current state: pairs << reason, node >>.
Reasons(c) ==
     {<< "AlreadyMeasured", n >> : n \in Uses(c) \cap done}
  \cup {<< "NotYetActive", n >> : n \in (Uses(c) \ live) \ done}
  \cup {<< "NotYetMeasured", n >> : n \in Needs(c) \ done}
  \cup (IF c.k = "M" /\ c.n \in Needs(c) THEN {<< "DomainSelfLoop", c.n >>} ELSE {})
  \cup (IF c.k = "N" /\ c.n \in live THEN {<< "AlreadyActive", c.n >>} ELSE {})
  \cup (IF c.k = "N" /\ c.n \in done THEN {<< "AlreadyMeasured", c.n >>} ELSE {})

Emit(s, ok, r, l) == PrintT(ToJson([v |-> "G", id |-> "g", s |-> s, ok |-> ok, r |-> r, l |-> l]))

Init == live = Rng(Conf.inputs) /\ done = {} /\ seq = <<>> /\ verdict = "runnable"

Do(c) ==
  /\ verdict = "runnable" /\ Len(seq) < Conf.len /\ c.k \in Kinds
  /\ seq' = Append(seq, c)
  /\ IF Reasons(c) = {}
     THEN /\ live' = CASE c.k = "N" -> live \cup {c.n} [] c.k = "M" -> live \ {c.n} [] OTHER -> live
          /\ done' = IF c.k = "M" THEN done \cup {c.n} ELSE done
          /\ verdict' = "runnable"
          /\ Emit(seq', 1, {}, live')
     ELSE /\ verdict' = "refused" /\ UNCHANGED << live, done >>
          /\ Emit(seq', 0, Reasons(c), {})
PrepareCmd == \E c \in {x \in Alphabet : x.k = "N"} : Do(c)
EntangleCmd == \E c \in {x \in Alphabet : x.k = "E"} : Do(c)
MeasureCmd == \E c \in {x \in Alphabet : x.k = "M"} : Do(c)
CorrectCmd == \E c \in {x \in Alphabet : x.k \in {"X", "Z"}} : Do(c)
CliffordCmd == \E c \in {x \in Alphabet : x.k = "C"} : Do(c)
Next == PrepareCmd \/ EntangleCmd \/ MeasureCmd \/ CorrectCmd \/ CliffordCmd
Spec == Init /\ [][Next]_vars

\* A node is never both live and measured, and every outcome used was produced before.
Disjoint == live \cap done = {}
Causal == verdict = "runnable" =>
  \A i \in DOMAIN seq : \A n \in Needs(seq[i]) : \E j \in 1..(i-1) : seq[j].k = "M" /\ seq[j].n = n
OnceOnly == verdict = "runnable" =>
  \A i, j \in DOMAIN seq : i # j /\ seq[i].k = seq[j].k /\ seq[i].k \in {"M", "N"} => seq[i].n # seq[j].n
=============================================================================
