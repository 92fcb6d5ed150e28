------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Composition and renaming of patterns and open graphs.                   *)
(*                                                                         *)
(* One case is one call of the implementation, recorded as                 *)
(*   t = "pat"  Pattern.compose:  P1, P2, map, pm (preserve_mapping)       *)
(*              -> err, or R and the complete mapping full                 *)
(*   t = "og"   OpenGraph.compose: G1, G2, map -> err, or R and full       *)
(*   t = "nm"   Pattern.node_mapping: nodes, map, start, avoids, preserves *)
(*              -> err, or full                                            *)
(*   t = "ren"  Pattern.reindex along an injective map: P1 -> R            *)
(* The machine steps through a composition: it first decides whether the   *)
(* arguments may be composed at all, then builds the composed object node  *)
(* by node (rename), command by command (append) and port by port, and     *)
(* finally compares what it built with what the implementation returned.   *)
(***************************************************************************)
EXTENDS QSem, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, ph, pc, built, verdict
vars == << cid, ph, pc, built, verdict >>
Case == Cases[cid]

Rng(s) == {s[i] : i \in DOMAIN s}
Keys(m) == {m[i][1] : i \in DOMAIN m}
Vals(m) == {m[i][2] : i \in DOMAIN m}
Injective(m) == \A i, j \in DOMAIN m : i # j => m[i][1] # m[j][1] /\ m[i][2] # m[j][2]
At(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1] = k][2]
Image(m, k) == IF k \in Keys(m) THEN At(m, k) ELSE k
ImSeq(m, s) == [i \in DOMAIN s |-> Image(m, s[i])]
ImSet(m, s) == {Image(m, x) : x \in s}
Less(a, b) == a < b
Ascending(S) == SetToSortSeq(S, Less)

\* --------------------------------------------------------------- patterns
CmdNodes(c) == IF c.k = "E" THEN {c.a, c.b} ELSE {c.n}
NodesOf(p) == Rng(p.inputs) \cup UNION {CmdNodes(p.cmds[i]) : i \in DOMAIN p.cmds}
RenameCmd(m, c) ==
  CASE c.k = "E" -> [c EXCEPT !.a = Image(m, c.a), !.b = Image(m, c.b)]
    [] c.k = "M" -> [c EXCEPT !.n = Image(m, c.n), !.s = ImSeq(m, c.s), !.t = ImSeq(m, c.t)]
    [] c.k \in {"X", "Z"} -> [c EXCEPT !.n = Image(m, c.n), !.d = ImSeq(m, c.d)]
    [] OTHER -> [c EXCEPT !.n = Image(m, c.n)]
\* Domains and edges are unordered.
SameCmd(c, d) ==
  /\ c.k = d.k
  /\ CASE c.k = "E" -> {c.a, c.b} = {d.a, d.b}
       [] c.k = "M" -> c.n = d.n /\ c.pl = d.pl /\ c.a = d.a /\ Rng(c.s) = Rng(d.s) /\ Rng(c.t) = Rng(d.t)
       [] c.k \in {"X", "Z"} -> c.n = d.n /\ Rng(c.d) = Rng(d.d)
       [] c.k = "N" -> c.n = d.n /\ c.st = d.st
       [] OTHER -> c = d

PatLegal ==
  LET v1 == NodesOf(Case.P1)  o1 == Rng(Case.P1.outputs)  i2 == Rng(Case.P2.inputs) IN
  /\ Keys(Case.map) \subseteq NodesOf(Case.P2)
  /\ Injective(Case.map)
  /\ (Vals(Case.map) \cap v1) \subseteq o1
  /\ \A i \in DOMAIN Case.map : Case.map[i][2] \in o1 => Case.map[i][1] \in i2

\* ------------------------------------------------------------- open graphs
NodesG(g) == Rng(g.V)
EdgesG(g, m) == {{Image(m, g.E[i][1]), Image(m, g.E[i][2])} : i \in DOMAIN g.E}
MeasOf(g, n) == LET S == {i \in DOMAIN g.M : g.M[i][1] = n} IN
                IF S = {} THEN <<>> ELSE LET r == g.M[CHOOSE i \in S : TRUE] IN << r[2], r[3] >>
CliffOf(g, n) == LET S == {i \in DOMAIN g.C : g.C[i][1] = n} IN
                 IF S = {} THEN MI ELSE g.C[CHOOSE i \in S : TRUE][2]
MatMul(a, b) == << CAdd(CMul(a[1], b[1]), CMul(a[2], b[3])), CAdd(CMul(a[1], b[2]), CMul(a[2], b[4])),
                   CAdd(CMul(a[3], b[1]), CMul(a[4], b[3])), CAdd(CMul(a[3], b[2]), CMul(a[4], b[4])) >>
Dagger(m) == << CConj(m[1]), CConj(m[3]), CConj(m[2]), CConj(m[4]) >>
MatVec(m, v) == << CAdd(CMul(m[1], v[1]), CMul(m[2], v[2])), CAdd(CMul(m[3], v[1]), CMul(m[4], v[2])) >>
SeqProp(a, b) == \A i, j \in DOMAIN a : CMul(a[i], b[j]) = CMul(a[j], b[i])
\* measuring (pl, a) after applying the Clifford c is measuring c^dagger |m>, outcome by outcome
SameMeas(new, old, c) ==
  /\ new # <<>> /\ old # <<>>
  /\ \A b \in 0..1 : SeqProp(Ket(new[1], new[2], b), MatVec(Dagger(c), Ket(old[1], old[2], b)))

OgLegal ==
  /\ Keys(Case.map) \subseteq NodesG(Case.G2)
  /\ Injective(Case.map)
  /\ \A i \in DOMAIN Case.map :
       LET a == MeasOf(Case.G1, Case.map[i][2])  b == MeasOf(Case.G2, Case.map[i][1]) IN
       a # <<>> /\ b # <<>> => SameMeas(a, b, MI)

\* ------------------------------------------------- fresh names (first fit)
RECURSIVE FirstFit(_, _, _)
FirstFit(todo, cand, used) ==       \* todo: ascending nodes; returns their names in that order
  IF todo = <<>> THEN <<>>
  ELSE IF cand \in used THEN FirstFit(todo, cand + 1, used)
  ELSE << << Head(todo), cand >> >> \o FirstFit(Tail(todo), cand + 1, used)
NmLegal == /\ Keys(Case.map) \subseteq Rng(Case.nodes) /\ Injective(Case.map)
NmExpected ==
  Rng(Case.map) \cup
  Rng(FirstFit(Ascending(Rng(Case.nodes) \ (Keys(Case.map) \cup Rng(Case.preserves))), Case.start,
               Rng(Case.avoids) \cup Rng(Case.preserves) \cup Vals(Case.map)))

\* A complete relabelling: extends the given one, injective, no unmapped node lands on a node of the
\* other operand or on a given name, ascending order preserved.
FullOK(v1, v2) ==
  LET f == Case.full  un == v2 \ Keys(Case.map) IN
  /\ Keys(f) = v2 /\ Injective(f)
  /\ Rng(Case.map) \subseteq Rng(f)
  /\ \A x \in un : At(f, x) \notin v1 /\ At(f, x) \notin Vals(Case.map)
  /\ \A x, y \in un : x < y => At(f, x) < At(f, y)

Legal == CASE Case.t = "pat" -> PatLegal [] Case.t = "og" -> OgLegal [] Case.t = "nm" -> NmLegal [] OTHER -> TRUE

Init == /\ cid \in DOMAIN Cases /\ ph = "judge" /\ pc = 1 /\ built = <<>> /\ verdict = "running"

Finish(v) == /\ verdict' = v /\ ph' = "done"
             /\ PrintT(ToJson(IF v = "ok" THEN [v |-> "K", id |-> Case.id] ELSE [v |-> "F", id |-> Case.id, c |-> v]))
             /\ UNCHANGED << cid, pc, built >>

\* illegal arguments must be refused, legal ones accepted
Refuse == /\ ph = "judge" /\ ~Legal /\ Finish(IF Case.err = "" THEN "accepted-illegal" ELSE "ok")
Accept == /\ ph = "judge" /\ Legal
          /\ IF Case.err # "" THEN Finish("refused-legal")
             ELSE /\ ph' = "build" /\ UNCHANGED << cid, pc, built, verdict >>

\* compose two patterns: commands of P1, then the renamed commands of P2
Total == Len(Case.P1.cmds) + (IF Case.t = "pat" THEN Len(Case.P2.cmds) ELSE 0)
FullMap == IF Case.t = "pat" THEN Case.full ELSE Case.map
AppendCmd ==
  /\ ph = "build" /\ Case.t \in {"pat", "ren"} /\ pc <= Total
  /\ built' = Append(built, IF Case.t = "ren" THEN RenameCmd(FullMap, Case.P1.cmds[pc])
                            ELSE IF pc <= Len(Case.P1.cmds) THEN Case.P1.cmds[pc]
                            ELSE RenameCmd(FullMap, Case.P2.cmds[pc - Len(Case.P1.cmds)]))
  /\ pc' = pc + 1 /\ UNCHANGED << cid, ph, verdict >>
SameCmds == /\ Len(Case.R.cmds) = Len(built)
            /\ \A i \in DOMAIN built : SameCmd(built[i], Case.R.cmds[i])
PatMerged == Vals(Case.map) \cap Rng(Case.P1.outputs)
PatInputs == Case.P1.inputs \o SelectSeq(ImSeq(Case.full, Case.P2.inputs), LAMBDA n : n \notin PatMerged)
PatOutputs ==
  LET i2 == ImSeq(Case.full, Case.P2.inputs)  o2 == ImSeq(Case.full, Case.P2.outputs) IN
  IF Case.pm = 1 /\ Cardinality(PatMerged) = Len(i2) /\ Len(i2) = Len(o2)
  THEN [i \in DOMAIN Case.P1.outputs |-> LET n == Case.P1.outputs[i] IN
          IF n \in PatMerged THEN o2[CHOOSE j \in DOMAIN i2 : i2[j] = n] ELSE n]
  ELSE SelectSeq(Case.P1.outputs, LAMBDA n : n \notin PatMerged) \o o2
JudgePat ==
  /\ ph = "build" /\ Case.t = "pat" /\ pc > Total
  /\ Finish(IF ~FullOK(NodesOf(Case.P1), NodesOf(Case.P2)) THEN "mapping"
            ELSE IF ~SameCmds THEN "commands"
            ELSE IF Case.R.inputs # PatInputs THEN "inputs"
            ELSE IF Case.R.outputs # PatOutputs THEN "outputs"
            ELSE "ok")
JudgeRen ==
  /\ ph = "build" /\ Case.t = "ren" /\ pc > Total
  /\ Finish(IF ~SameCmds THEN "commands"
            ELSE IF Case.R.inputs # ImSeq(Case.map, Case.P1.inputs) THEN "inputs"
            ELSE IF Case.R.outputs # ImSeq(Case.map, Case.P1.outputs) THEN "outputs"
            ELSE "ok")
JudgeNm == /\ ph = "build" /\ Case.t = "nm"
           /\ Finish(IF Rng(Case.full) # NmExpected THEN "mapping" ELSE "ok")

\* open graphs
Merged == ImSet(Case.full, NodesG(Case.G2)) \cap NodesG(Case.G1)
Ports(p1, p2) ==
  LET q == ImSeq(Case.full, p2) IN
  SelectSeq(p1, LAMBDA n : n \notin Merged \/ n \in Rng(q)) \o SelectSeq(q, LAMBDA n : n \notin Merged)
Pre(n) == CHOOSE x \in NodesG(Case.G2) : At(Case.full, x) = n
MeasExpectedOK(n) ==
  LET in1 == n \in NodesG(Case.G1)  in2 == n \in Vals(Case.full)
      m1 == IF in1 THEN MeasOf(Case.G1, n) ELSE <<>>
      m2 == IF in2 THEN MeasOf(Case.G2, Pre(n)) ELSE <<>>
      r == MeasOf(Case.R, n)
  IN IF m1 = <<>> /\ m2 = <<>> THEN r = <<>>
     ELSE IF m1 # <<>> THEN SameMeas(r, m1, IF m2 = <<>> /\ in2 THEN CliffOf(Case.G2, Pre(n)) ELSE MI)
     ELSE SameMeas(r, m2, IF in1 THEN CliffOf(Case.G1, n) ELSE MI)
CliffExpectedOK(n) ==
  LET in1 == n \in NodesG(Case.G1)  in2 == n \in Vals(Case.full)
      c1 == IF in1 THEN CliffOf(Case.G1, n) ELSE MI
      c2 == IF in2 THEN CliffOf(Case.G2, Pre(n)) ELSE MI
  IN SeqProp(CliffOf(Case.R, n), MatMul(c2, c1))
JudgeOg ==
  /\ ph = "build" /\ Case.t = "og"
  /\ Finish(IF ~FullOK(NodesG(Case.G1), NodesG(Case.G2)) THEN "mapping"
            ELSE IF NodesG(Case.R) # NodesG(Case.G1) \cup Vals(Case.full) THEN "nodes"
            ELSE IF EdgesG(Case.R, <<>>) # EdgesG(Case.G1, <<>>) \cup EdgesG(Case.G2, Case.full) THEN "edges"
            ELSE IF Case.R.I # Ports(Case.G1.I, Case.G2.I) THEN "inputs"
            ELSE IF Case.R.O # Ports(Case.G1.O, Case.G2.O) THEN "outputs"
            ELSE IF ~(\A n \in NodesG(Case.R) : MeasExpectedOK(n)) THEN "measurements"
            ELSE IF ~(\A n \in Rng(Case.R.O) : CliffExpectedOK(n)) THEN "cliffords"
            ELSE "ok")

Next == Refuse \/ Accept \/ AppendCmd \/ JudgePat \/ JudgeRen \/ JudgeNm \/ JudgeOg
Spec == Init /\ [][Next]_vars

\* the commands built so far never mention a node that was not there or freshly named
BuiltInv == Case.t \in {"pat", "ren"} => Len(built) = pc - 1
=============================================================================
