------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* Objects built by a history of calls, as explicit state machines.        *)
(*  circuit : a register of Conf.width wires, of which `live` are still    *)
(*            quantum; a call whose wires are not distinct live ones is    *)
(*            refused and changes nothing; a measurement retires its wire. *)
(*  pattern : input nodes, output nodes (in order of appearance unless     *)
(*            reordered), commands; the outputs are the nodes given or     *)
(*            prepared and not measured.                                   *)
(*  graph   : an open graph is accepted iff its parts fit together.        *)
(* TLC enumerates every history of the configured length and prints it     *)
(* with what has to be observed after each call.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CASES)[1]
Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

VARIABLES live,   \* circuit: wires still quantum
          ins, outs, cmds, made,  \* pattern: inputs, outputs, commands so far, number of nodes given or prepared
          start,  \* pattern: the inputs it was made with
          hist    \* calls made, each with what has to be observed after it
vars == << live, ins, outs, cmds, made, start, hist >>

(* ------------------------------------------------------------- circuits *)
W == Conf.width
Wires == 0..W    \* W itself is not a wire
CircuitCalls ==
     {[k |-> k, a |-> << q >>] : k \in {"g1", "m"}, q \in Wires}
  \cup {[k |-> "g2", a |-> << p, q >>] : p \in Wires, q \in Wires}
  \cup {[k |-> "g3", a |-> Conf.triples[i]] : i \in DOMAIN Conf.triples}
Fits(c) == Rng(c.a) \subseteq live /\ NoDup(c.a)
Gate(c) ==
  LET ok == Fits(c)
      l == IF ok /\ c.k = "m" THEN live \ Rng(c.a) ELSE live
  IN /\ live' = l
     /\ hist' = Append(hist, [k |-> c.k, a |-> c.a, ok |-> ok, live |-> l])
     /\ UNCHANGED << ins, outs, cmds, made, start >>
CircuitGate == Conf.machine = "circuit" /\ \E c \in {x \in CircuitCalls : x.k # "m"} : Gate(c)
CircuitMeasure == Conf.machine = "circuit" /\ \E c \in {x \in CircuitCalls : x.k = "m"} : Gate(c)

(* ------------------------------------------------------------- patterns *)
Nodes == Rng(Conf.nodes)
Known == Rng(ins) \cup {cmds[i].n : i \in {j \in DOMAIN cmds : cmds[j].k = "N"}}
Adds == {[k |-> "N", n |-> n] : n \in Nodes \ Known} \cup {[k |-> k, n |-> n] : k \in {"M", "X", "E"}, n \in Nodes}
\* the machine's reading of one command
OutAfter(o, c) == CASE c.k = "N" -> Append(o, c.n) [] c.k = "M" -> Without(o, c.n) [] OTHER -> o
RECURSIVE OutAll(_, _)
OutAll(o, s) == IF s = <<>> THEN o ELSE OutAll(OutAfter(o, s[1]), Tail(s))
Prepared(s) == Cardinality({i \in DOMAIN s : s[i].k = "N"})
See(call, ok) ==
  hist' = Append(hist, [k |-> call, ok |-> ok, ins |-> ins', outs |-> outs', cmds |-> cmds', made |-> made',
                        nodes |-> Rng(ins') \cup {cmds'[i].n : i \in {j \in DOMAIN cmds' : cmds'[j].k = "N"}}])
IsPattern == Conf.machine = "pattern" /\ UNCHANGED << live, start >>
Add == /\ IsPattern
       /\ \E c \in Adds : /\ cmds' = Append(cmds, c) /\ outs' = OutAfter(outs, c)
                          /\ made' = made + (IF c.k = "N" THEN 1 ELSE 0) /\ UNCHANGED ins
                          /\ See(<< "add", c >>, TRUE)
Clear == /\ IsPattern /\ cmds' = <<>> /\ outs' = ins /\ made' = Len(ins) /\ UNCHANGED ins
         /\ See(<< "clear" >>, TRUE)
\* replacing the commands, with the same inputs or others: everything is read again
Replace == /\ IsPattern
           /\ \E how \in {"reverse", "drop"}, new \in {<< "same" >>} \cup {<< "new", x >> : x \in Rng(Conf.inputs)} :
                LET i == IF new[1] = "same" THEN ins ELSE new[2]
                    kept == SelectSeq(IF how = "drop" THEN Tail(cmds) ELSE Rev(cmds), LAMBDA c : ~(c.k = "N" /\ c.n \in Rng(i)))
                IN /\ cmds # <<>>
                   /\ ins' = i /\ cmds' = kept /\ outs' = OutAll(i, kept) /\ made' = Len(i) + Prepared(kept)
                   /\ See(<< "replace", kept, new >>, TRUE)
\* orders of nodes that are, or are not, a permutation of the present ones
Orders(o) == {Rev(o), o} \cup (IF o = <<>> THEN {} ELSE {Tail(o), Append(o, o[1]), Append(Tail(o), o[1]), Append(Tail(o), 99)})
Reorder == /\ IsPattern
           /\ \E new \in Orders(outs) :
                LET ok == Rng(new) = Rng(outs) /\ NoDup(new) IN
                /\ outs' = IF ok THEN new ELSE outs
                /\ UNCHANGED << ins, cmds, made >> /\ See(<< "outs", new >>, ok)
ReorderInputs == /\ IsPattern
           /\ \E new \in Orders(ins) :
                LET ok == Rng(new) = Rng(ins) /\ NoDup(new) IN
                /\ ins' = IF ok THEN new ELSE ins
                /\ UNCHANGED << outs, cmds, made >> /\ See(<< "ins", new >>, ok)
\* renaming every node n to (n + 1) mod (number of names), in place
Reindex == /\ IsPattern
           /\ LET f(n) == (n + 1) % Cardinality(Nodes) IN
              /\ ins' = [i \in DOMAIN ins |-> f(ins[i])] /\ outs' = [i \in DOMAIN outs |-> f(outs[i])]
              /\ cmds' = [i \in DOMAIN cmds |-> [cmds[i] EXCEPT !.n = f(@)]] /\ UNCHANGED made
              /\ See(<< "reindex" >>, TRUE)

(* ---------------------------------------------------------- open graphs *)
Lists == {<<>>} \cup {<< x >> : x \in Nodes \cup {9}} \cup {<< x, y >> : x \in Nodes \cup {9}, y \in Nodes \cup {9}}
Sets == SUBSET (Nodes \cup {9})
GoodGraph(i, o, m, c) ==
  /\ Rng(i) \subseteq Nodes /\ Rng(o) \subseteq Nodes /\ NoDup(i) /\ NoDup(o)
  /\ m = Nodes \ Rng(o) /\ c \subseteq Rng(o)
Build == /\ Conf.machine = "graph" /\ UNCHANGED << live, ins, outs, cmds, made, start >>
         /\ \E i \in Lists, o \in Lists, m \in Sets, c \in Sets :
              hist' = << [i |-> i, o |-> o, m |-> m, c |-> c, ok |-> GoodGraph(i, o, m, c)] >>

Init == /\ live = IF Conf.machine = "circuit" THEN 0..(W - 1) ELSE {}
        /\ ins \in (IF Conf.machine = "pattern" THEN Rng(Conf.inputs) ELSE {<<>>})
        /\ outs = ins /\ start = ins /\ cmds = <<>> /\ made = Len(ins) /\ hist = <<>>
Next == /\ Len(hist) < Conf.len
        /\ CircuitGate \/ CircuitMeasure \/ Add \/ Clear \/ Replace \/ Reorder \/ ReorderInputs \/ Reindex \/ Build
        /\ Len(hist') = Conf.len => PrintT(ToJson([v |-> "G", id |-> "g", start |-> start, h |-> hist']))
Spec == Init /\ [][Next]_vars

(* ----------------------------------- what every history must maintain *)
Sane == /\ NoDup(ins) /\ NoDup(outs) /\ Rng(outs) \subseteq Known
        /\ Conf.machine = "pattern" => made = Cardinality(Known)
        \* the outputs are exactly the known nodes that were not measured after they appeared
        /\ Rng(outs) = Rng(OutAll(ins, cmds))
        /\ live \subseteq 0..(W - 1)
\* a refused call changes nothing; a retired wire never comes back
Calm == [][/\ live' \subseteq live
           /\ (Len(hist') > Len(hist) /\ "ok" \in DOMAIN hist'[Len(hist')] /\ ~hist'[Len(hist')].ok) => UNCHANGED << live, ins, outs, cmds, made >>]_vars
=============================================================================
