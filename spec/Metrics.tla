------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* What a pattern's reports must say.  The machine executes the command    *)
(* sequence (after whatever rewriting history produced it) and measures    *)
(* itself: live nodes and their number over time, entanglement by parity,  *)
(* byproduct domains propagated through entanglement and Clifford          *)
(* commands, hence the true dependencies of each measurement and its       *)
(* level, and the phase of the standard form.  On completion the machine   *)
(* compares every recorded report with its own history.  Then it explores  *)
(* every other measurement schedule compatible with the dependencies: no   *)
(* schedule may need less space than a report claimed to be optimal.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, m, phase
vars == << cid, pc, m, phase >>
Case == Cases[cid]
Cmds == Case.cmds
Cmd == Cmds[pc]
Q == Case.q
Has(f) == f \in DOMAIN Q
Rng(s) == { s[k] : k \in DOMAIN s }
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Par(S, T) == (S \ T) \cup (T \ S)
Peak(S) == IF S = {} THEN 0 ELSE Max(S)
Odd(s) == { e \in Rng(s) : Cardinality({ k \in DOMAIN s : s[k] = e }) % 2 = 1 }
Ins == Rng(Case.ins)

Fn(f, n, d) == IF n \in DOMAIN f THEN f[n] ELSE d
Set(f, n, v) == (n :> v) @@ f
X(n) == Fn(m.x, n, {})
Z(n) == Fn(m.z, n, {})
\* the action of a local Clifford on the pair (x, z) of domains: << xx, xz, zx, zz >>
Id4 == << 1, 0, 0, 1 >>
If(b, S) == IF b = 1 THEN S ELSE {}
ActX(c, x, z) == Par(If(c[1], x), If(c[3], z))
ActZ(c, x, z) == Par(If(c[2], x), If(c[4], z))
Then(a, c) == << (a[1] * c[1] + a[2] * c[3]) % 2, (a[1] * c[2] + a[2] * c[4]) % 2, (a[3] * c[1] + a[4] * c[3]) % 2, (a[3] * c[2] + a[4] * c[4]) % 2 >>
Keeps(c) == c[3] = 0
Cl(n) == Fn(m.cl, n, Id4)

Start == [live |-> Ins, nodes |-> Ins, sizes |-> << >>, top |-> Cardinality(Ins), edges |-> {}, touch |-> {}, x |-> << >>, z |-> << >>, cl |-> << >>, hard |-> 0,
          dep |-> << >>, level |-> << >>, order |-> << >>, n |-> Cardinality(Ins), rank |-> 0, std |-> 1, strict |-> 1]
Init == /\ cid \in DOMAIN Cases /\ pc = 1 /\ phase = "run" /\ m = Start

Ranked(r, s) == [m EXCEPT !.rank = Max({r, @}), !.std = IF (IF r = 5 THEN 4 ELSE r) < (IF m.rank = 5 THEN 4 ELSE m.rank) THEN 0 ELSE @, !.strict = IF r < m.rank THEN 0 ELSE @]
Run == phase = "run" /\ pc <= Len(Cmds)
Is(k) == Run /\ Cmd.k = k
Go(new) == m' = new /\ pc' = pc + 1 /\ UNCHANGED << cid, phase >>

Prepare == Is("N") /\ LET r == Ranked(1, 1) IN
  Go([r EXCEPT !.live = @ \cup {Cmd.n}, !.nodes = @ \cup {Cmd.n}, !.n = @ + 1, !.sizes = Append(@, Cardinality(m.live) + 1), !.top = Max({@, Cardinality(m.live) + 1})])
Entangle == Is("E") /\ LET r == Ranked(2, 1) e == {Cmd.n, Cmd.m} IN
  Go([r EXCEPT !.edges = Par(@, {e}), !.touch = @ \cup {e}, !.z = (Cmd.n :> Par(Z(Cmd.n), X(Cmd.m))) @@ (Cmd.m :> Par(Z(Cmd.m), X(Cmd.n))) @@ @,
               !.hard = IF Keeps(Cl(Cmd.n)) /\ Keeps(Cl(Cmd.m)) THEN @ ELSE 1])
Measure == Is("M") /\ LET r == Ranked(3, 1)
                         d == Par(Odd(Cmd.s), X(Cmd.n)) \cup Par(Odd(Cmd.t), Z(Cmd.n)) IN
  Go([r EXCEPT !.live = @ \ {Cmd.n}, !.sizes = Append(@, Cardinality(m.live) - 1), !.order = Append(@, Cmd.n), !.dep = Set(@, Cmd.n, d),
               !.level = Set(@, Cmd.n, Peak({ m.level[i] + 1 : i \in d }))])
CorrectX == Is("X") /\ LET r == Ranked(4, 1) IN Go([r EXCEPT !.x = Set(@, Cmd.n, Par(X(Cmd.n), Odd(Cmd.d)))])
CorrectZ == Is("Z") /\ LET r == Ranked(4, 1) IN Go([r EXCEPT !.z = Set(@, Cmd.n, Par(Z(Cmd.n), Odd(Cmd.d)))])
Clifford == Is("C") /\ LET r == Ranked(5, 1) IN
  Go([r EXCEPT !.x = Set(@, Cmd.n, ActX(Cmd.c, X(Cmd.n), Z(Cmd.n))), !.z = Set(@, Cmd.n, ActZ(Cmd.c, X(Cmd.n), Z(Cmd.n))), !.cl = Set(@, Cmd.n, Then(Cl(Cmd.n), Cmd.c))])

(* ---- comparison of the reports ---- *)
Degree(n) == Cardinality({ e \in m.edges : n \in e })
Pairs(s) == { Rng(s[k]) : k \in DOMAIN s }
Neighbours(S, n) == { v \in m.nodes : v # n /\ {v, n} \in S }
Odds(n) == Neighbours(m.edges, n)
AllOf(k) == SelectSeq(Cmds, LAMBDA c : c.k \in k)
Texts(s) == [k \in DOMAIN s |-> s[k].r]

\* space needed when measurements are made in the given order and everything else as late as possible
Around(S) == Ins \cup S \cup UNION { Odds(n) : n \in S }
Lazy(order) == Max({Cardinality(Ins), Cardinality(m.live)} \cup { Cardinality(Around({ order[j] : j \in 1..k })) - (k - 1) : k \in DOMAIN order })

LayerOf(L, n) == CHOOSE k \in DOMAIN L : n \in Rng(L[k])
Depth == IF m.order = << >> THEN 0 ELSE 1 + Max({ m.level[n] : n \in DOMAIN m.level })
LayersWrong(L) ==
  LET flat == FlattenSeq(L) IN
  IF \E k \in DOMAIN L : L[k] = << >> THEN "empty-layer"
  ELSE IF ~NoDup(flat) \/ Rng(flat) # m.nodes THEN "not-a-partition"
  ELSE IF m.live # {} /\ Rng(L[1]) # m.live THEN "outputs-not-first"
  ELSE IF \E n \in DOMAIN m.dep : \E i \in m.dep[n] : LayerOf(L, i) <= LayerOf(L, n) THEN "dependency"
  ELSE IF Len(L) # Depth + (IF m.live = {} THEN 0 ELSE 1) THEN "depth"
  ELSE ""

Allocated(q) ==
  LET given == q.given
      keys == { given[k][1] : k \in DOMAIN given }
      vals == { given[k][2] : k \in DOMAIN given }
      used == vals \cup Rng(q.avoids) \cup Rng(q.preserves)
      todo == (m.nodes \ keys) \ Rng(q.preserves)
      bad == keys \ m.nodes # {} \/ Cardinality(vals) # Cardinality(keys)
      fresh == { q.result[k][2] : k \in { k \in DOMAIN q.result : q.result[k][1] \notin keys } }
  IN IF q.refused = 1 THEN (IF bad THEN "" ELSE "mapping-refused")
     ELSE IF bad THEN "mapping-accepted"
     ELSE IF { q.result[k][1] : k \in DOMAIN q.result } # keys \cup todo THEN "mapping-domain"
     ELSE IF ~(Rng(given) \subseteq Rng(q.result)) THEN "mapping-extension"
     ELSE IF Cardinality(fresh) # Cardinality(todo) \/ fresh \cap used # {} THEN "mapping-injective"
     ELSE IF fresh # {} /\ \E c \in q.start..Max(fresh) : c \notin fresh \cup used THEN "mapping-not-least"
     ELSE IF \E c \in fresh : c < q.start THEN "mapping-start"
     ELSE ""

Clauses ==
  { <<"n_node", Has("n_node") => Q.n_node = m.n>>,
    <<"nodes", Has("nodes") => NoDup(Q.nodes) /\ Rng(Q.nodes) = m.nodes>>,
    <<"outputs", Has("outputs") => NoDup(Q.outputs) /\ Rng(Q.outputs) = m.live>>,
    <<"inputs", Has("inputs") => Q.inputs = Case.ins>>,
    <<"length", Has("length") => Q.length = Len(Cmds) /\ Q.items = Texts(Cmds)>>,
    <<"space_list", Has("space_list") => Q.space_list = m.sizes>>,
    <<"max_space", Has("max_space") => Q.max_space = m.top>>,
    <<"is_standard", Has("standard") => Q.standard = m.std>>,
    <<"is_standard_strict", Has("strict") => Q.strict = m.strict>>,
    <<"measurement_commands", Has("mdict") => Rng(Q.mdict) = { << c.n, c.r >> : c \in Rng(AllOf({"M"})) }>>,
    <<"clifford_commands", Has("cdict") => Rng(Q.cdict) = { << c.n, c.r >> : c \in Rng(AllOf({"C"})) }>>,
    <<"correction_commands", Has("corrections") => Q.corrections = Texts(AllOf({"X", "Z"}))>>,
    <<"max_degree", Has("max_degree") => Q.max_degree = Peak({ Degree(n) : n \in m.nodes })>>,
    <<"isolated_nodes", Has("isolated") => Rng(Q.isolated) = { n \in m.nodes : Degree(n) = 0 }>>,
    <<"graph-nodes", Has("gnodes") => Rng(Q.gnodes) = m.nodes>>,
    <<"graph-edges", Has("gedges") => Pairs(Q.gedges) = m.edges>>,
    <<"graph-inputs", Has("gins") => Q.gins = Case.ins>>,
    <<"graph-outputs", Has("gouts") => Rng(Q.gouts) = m.live>>,
    <<"graph-measured", Has("gmeas") => Rng(Q.gmeas) = Rng(m.order)>>,
    <<"connected_nodes", Has("connected") => \A k \in DOMAIN Q.connected : LET c == Q.connected[k] IN
         /\ Odds(c.n) \ Rng(c.prepared) \subseteq Rng(c.nodes) /\ Rng(c.nodes) \subseteq Neighbours(m.touch, c.n) \ Rng(c.prepared)>>,
    <<"sorted-measurements", Has("sorted") => \A k \in DOMAIN Q.sorted : Q.sorted[k][1] = Q.sorted[k][2]>>,
    <<"refused", Has("refused") => Q.refused = m.hard>>,
    <<"graph-refused", Has("grefused") => Q.grefused = (IF \E k \in DOMAIN Cmds : Cmds[k].k = "N" /\ Cmds[k].plus = 0 THEN 1 ELSE 0)>>,
    <<"lazy-space", Has("lazy") => \A k \in DOMAIN Q.lazy : Q.lazy[k] = Lazy(m.order)>>,
    <<"minimized-space", Has("minimized") => Q.minimized <= Lazy(m.order) /\ Lazy(m.order) <= m.top>>,
    <<"parallel-order", Has("parallel") => Rng(Q.parallel) = Rng(m.order) /\ NoDup(Q.parallel) /\ (Has("layers") => \A i, j \in DOMAIN Q.parallel : i < j => LayerOf(Q.layers, Q.parallel[i]) >= LayerOf(Q.layers, Q.parallel[j]))>> }
Failed ==
  { c[1] : c \in { c \in Clauses : ~c[2] } }
  \cup (IF Has("layers") THEN { w \in { LayersWrong(Q.layers) } : w # "" } ELSE {})
  \cup (IF Has("mappings") THEN { Allocated(Q.mappings[k]) : k \in DOMAIN Q.mappings } \ {""} ELSE {})

Searches == Has("optimal")
Report ==
  /\ phase = "run" /\ pc = Len(Cmds) + 1
  /\ LET w == Failed IN
     /\ IF w = {} THEN PrintT(ToJson([v |-> "K", id |-> Case.id]))
        ELSE \A c \in w : PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c]))
     /\ IF w = {} /\ Searches THEN phase' = "search" /\ m' = [m EXCEPT !.order = << >>, !.sizes = << >>, !.touch = {}, !.x = {}, !.z = << >>]
        ELSE phase' = "done" /\ UNCHANGED m
  /\ UNCHANGED << cid, pc >>

\* every other schedule, as long as it needs less space than the reported optimum; m.x is the set measured so far
Reschedule ==
  /\ phase = "search" /\ \E n \in DOMAIN m.dep \ m.x :
       /\ m.dep[n] \subseteq m.x
       /\ Cardinality(Around(m.x \cup {n})) - Cardinality(m.x) < Q.optimal
       /\ m' = [m EXCEPT !.x = @ \cup {n}]
  /\ UNCHANGED << cid, pc, phase >>
Beaten ==
  /\ phase = "search" /\ m.x = DOMAIN m.dep /\ Cardinality(Ins) < Q.optimal /\ Cardinality(m.live) < Q.optimal
  /\ phase' = "done" /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> "space-not-optimal"])) /\ UNCHANGED << cid, pc, m >>

Next == Prepare \/ Entangle \/ Measure \/ CorrectX \/ CorrectZ \/ Clifford \/ Report \/ Reschedule \/ Beaten
Spec == Init /\ [][Next]_vars

\* the machine never loses a node, and dependencies always point to the past
Sane == phase = "run" => /\ m.live \cup DOMAIN m.dep = m.nodes /\ m.live \cap DOMAIN m.dep = {}
                         /\ \A n \in DOMAIN m.dep : m.dep[n] \subseteq DOMAIN m.dep
                         /\ Cardinality(m.live) <= m.top /\ (m.strict = 1 => m.std = 1)
=============================================================================
