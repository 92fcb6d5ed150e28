-------------------------------- MODULE MBQC --------------------------------
(***************************************************************************)
(* The abstract machine.                                                   *)
(*                                                                         *)
(* A program is a record                                                   *)
(*   [inputs : Seq(Node), outputs : Seq(Node), cmds : Seq(Command),        *)
(*    sched : permutation of 1..Len(cmds)]                                 *)
(* where a command is one of                                               *)
(*   [k|->"N", n, st]                prepare node n in basic state st      *)
(*   [k|->"E", a, b]                 CZ                                    *)
(*   [k|->"M", n, pl, a, s, t]       measure n in plane pl, angle a, after *)
(*                                   X^(parity s) Z^(parity t)             *)
(*   [k|->"X", n, d] / [k|->"Z"..]   correction conditioned on parity of d *)
(*   [k|->"C", n, m]                 single-qubit Clifford with matrix m   *)
(*   [k|->"G", g, q, a]              circuit gate g on qubits q, angle a   *)
(*   [k|->"G", g|->"PEXP", q, ax, a] exp(i a P), P the Pauli string ax on q *)
(*   [k|->"G", g|->"PROJ", q, ax, a] (I + (-1)^a P)/2                      *)
(* Circuits and measurement patterns are therefore programs of the same    *)
(* machine, and so are open graphs ("project every measured node").        *)
(*                                                                         *)
(* One behaviour runs program A of a case with free measurement outcomes,  *)
(* then program B with outcomes tied to A's by the case's outcome relation *)
(* (unrelated outcomes stay free), and finally compares the two branch     *)
(* maps.  TLC explores every branch.  A case with ex = 1 demands only that *)
(* each branch of A equals some branch of B (verdicts "E", grouped by the  *)
(* outcomes of A).                                                         *)
(*                                                                         *)
(* "sched" lets a program be executed in another order than written, so    *)
(* that few nodes are live at once; SchedOK demands that the two orders    *)
(* differ only by commuting adjacent commands (no shared node, no outcome  *)
(* used before it is produced), hence denote the same map.                 *)
(***************************************************************************)
EXTENDS QSem, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid,      \* case index
          br,       \* index of the outcome-restriction chosen from the case
          ph,       \* "A", "B", "done"
          pc,       \* next schedule slot
          live,     \* Seq(Node): live nodes in register order (after the reference qubits)
          psi,      \* amplitudes
          out,      \* outcomes of the running program: node -> bit
          sav,      \* result of program A
          verdict   \* name of the failed clause, or "ok" / "running"
vars == << cid, br, ph, pc, live, psi, out, sav, verdict >>

Case == Cases[cid]
Prog == IF ph = "A" THEN Case.A ELSE Case.B
NRef == Len(Case.A.inputs)

InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
PosOf(n) == NRef + (CHOOSE i \in DOMAIN live : live[i] = n) - 1
IsLive(n) == InSeq(n, live)
RemoveFrom(s, n) == SelectSeq(s, LAMBDA x : x # n)

RECURSIVE Parity(_, _)
Parity(d, o) == IF d = <<>> THEN 0 ELSE (o[Head(d)] + Parity(Tail(d), o)) % 2
Known(d) == \A i \in DOMAIN d : d[i] \in DOMAIN out

\* ------------------------------------------------------- schedule validity
CmdNodes(c) == CASE c.k = "E" -> {c.a, c.b}
                 [] c.k = "G" -> {c.q[i] : i \in DOMAIN c.q}
                 [] OTHER -> {c.n}
CmdUses(c) == CASE c.k = "M" -> {c.s[i] : i \in DOMAIN c.s} \cup {c.t[i] : i \in DOMAIN c.t}
                [] c.k \in {"X", "Z"} -> {c.d[i] : i \in DOMAIN c.d}
                [] OTHER -> {}
CmdSets(cmds) == [i \in DOMAIN cmds |-> << CmdNodes(cmds[i]), CmdUses(cmds[i]), cmds[i].k = "M" >>]
\* Two E commands always commute.
Depends(c, d) == \/ (c[1] \cap d[1] # {})
                 \/ (c[3] /\ c[1] \cap d[2] # {})
                 \/ (d[3] /\ d[1] \cap c[2] # {})
SchedOK(p) ==
  \/ p.sched = <<>>
  \/ LET n == Len(p.cmds)
         cs == CmdSets(p.cmds)
         inv == [i \in 1..n |-> IF \E j \in 1..n : p.sched[j] = i THEN CHOOSE j \in 1..n : p.sched[j] = i ELSE 0]
     IN /\ Len(p.sched) = n
        /\ \A i \in 1..n : inv[i] # 0
        /\ \A i \in 1..n : \A j \in (i+1)..n :
             Depends(cs[i], cs[j]) =>
               \/ inv[i] < inv[j]
               \/ p.cmds[i].k = "E" /\ p.cmds[j].k = "E"

Cmd == IF Prog.sched = <<>> THEN Prog.cmds[pc] ELSE Prog.cmds[Prog.sched[pc]]
NCmds == Len(Prog.cmds)

\* --------------------------------------------------------- basic states
StateVec(st) ==
  CASE st = "PLUS"    -> << R0(IS2), R0(IS2) >>
    [] st = "MINUS"   -> << R0(IS2), R0(P - IS2) >>
    [] st = "ZERO"    -> << COne, CZero >>
    [] st = "ONE"     -> << CZero, COne >>
    [] st = "PLUS_I"  -> << R0(IS2), <<0, IS2>> >>
    [] st = "MINUS_I" -> << R0(IS2), <<0, P - IS2>> >>
States == {"PLUS", "MINUS", "ZERO", "ONE", "PLUS_I", "MINUS_I"}

\* ------------------------------------------------------ outcome relation
\* Outcome of node n of program B forced by A's outcomes, if the case says so.
RelIdx(n) == {i \in DOMAIN Case.rel : Case.rel[i].n = n}
AllowedA(n) == LET f == Case.brs[br]
                   S == {i \in DOMAIN f : f[i][1] = n}
               IN IF S = {} THEN {0, 1} ELSE {f[CHOOSE i \in S : TRUE][2]}
AllowedB(n) == IF RelIdx(n) = {} THEN {0, 1}
               ELSE LET r == Case.rel[CHOOSE i \in RelIdx(n) : TRUE]
                    IN {(r.c + Parity(r.d, sav.out)) % 2}
Allowed(n) == IF ph = "A" THEN AllowedA(n) ELSE AllowedB(n)

\* ------------------------------------------------------------------ Init
Init ==
  /\ cid \in DOMAIN Cases
  /\ br \in DOMAIN Cases[cid].brs
  /\ ph = "A" /\ pc = 1
  /\ live = Cases[cid].A.inputs
  /\ psi = ChoiInit(Len(Cases[cid].A.inputs))
  /\ out = << >>
  /\ sav = << >>
  /\ verdict = IF ~SchedOK(Cases[cid].A) \/ ~SchedOK(Cases[cid].B) THEN "schedule"
               ELSE IF Len(Cases[cid].A.inputs) # Len(Cases[cid].B.inputs) THEN "input-arity"
               ELSE "running"

Running == verdict = "running" /\ ph # "done" /\ pc <= NCmds
Step == /\ pc' = pc + 1
        /\ UNCHANGED << cid, br, ph, sav, verdict >>

\* --------------------------------------------------------------- actions
Prepare ==
  /\ Running /\ Cmd.k = "N" /\ ~IsLive(Cmd.n) /\ Cmd.n \notin DOMAIN out /\ Cmd.st \in States
  /\ live' = Append(live, Cmd.n)
  /\ psi' = LET v == StateVec(Cmd.st) IN AddQubit(psi, v[1], v[2])
  /\ UNCHANGED out /\ Step

Entangle ==
  /\ Running /\ Cmd.k = "E" /\ Cmd.a # Cmd.b /\ IsLive(Cmd.a) /\ IsLive(Cmd.b)
  /\ psi' = FlipCZ(psi, PosOf(Cmd.a), PosOf(Cmd.b))
  /\ UNCHANGED << live, out >> /\ Step

MeasEnabled == /\ Cmd.k = "M" /\ IsLive(Cmd.n) /\ Known(Cmd.s) /\ Known(Cmd.t) /\ Cmd.pl \in Planes
Measure ==
  /\ Running /\ MeasEnabled
  /\ \E b \in Allowed(Cmd.n) :
       /\ out' = (Cmd.n :> b) @@ out
       /\ LET k == PosOf(Cmd.n)
              p1 == IF Parity(Cmd.s, out) = 1 THEN ApplyX(psi, k, {}) ELSE psi
              p2 == IF Parity(Cmd.t, out) = 1 THEN FlipZ(p1, k) ELSE p1
          IN psi' = Project(p2, k, Ket(Cmd.pl, Cmd.a, b))
  /\ live' = RemoveFrom(live, Cmd.n)
  /\ Step

Correct ==
  /\ Running /\ Cmd.k \in {"X", "Z"} /\ IsLive(Cmd.n) /\ Known(Cmd.d)
  /\ psi' = IF Parity(Cmd.d, out) = 0 THEN psi
            ELSE IF Cmd.k = "X" THEN ApplyX(psi, PosOf(Cmd.n), {}) ELSE FlipZ(psi, PosOf(Cmd.n))
  /\ UNCHANGED << live, out >> /\ Step

LocalClifford ==
  /\ Running /\ Cmd.k = "C" /\ IsLive(Cmd.n)
  /\ psi' = Apply1(psi, PosOf(Cmd.n), Cmd.m)
  /\ UNCHANGED << live, out >> /\ Step

Gates1 == {"I", "H", "S", "X", "Y", "Z", "RX", "RY", "RZ", "J"}
Gate1Mat(g, a) == CASE g = "I" -> MI [] g = "H" -> MH [] g = "S" -> MS [] g = "X" -> MX
                    [] g = "Y" -> MY [] g = "Z" -> MZ [] g = "RX" -> MRX(a) [] g = "RY" -> MRY(a)
                    [] g = "RZ" -> MRZ(a) [] g = "J" -> MJ(a)
GateApply(g, q, a) ==
  LET p(i) == PosOf(q[i]) IN
  CASE g \in Gates1 -> Apply1(psi, p(1), Gate1Mat(g, a))
    [] g = "CNOT" -> ApplyX(psi, p(2), {p(1)})
    [] g = "CZ"   -> FlipCZ(psi, p(1), p(2))
    [] g = "SWAP" -> SwapPos(psi, p(1), p(2))
    [] g = "RZZ"  -> ApplyX(Apply1(ApplyX(psi, p(2), {p(1)}), p(2), MRZ(a)), p(2), {p(1)})
    [] g = "CCX"  -> ApplyX(psi, p(3), {p(1), p(2)})
\* Pauli string: qubits q with axes ax (aligned sequences), applied to an arbitrary array
PAxis(v, k, ax) == CASE ax = "X" -> ApplyX(v, k, {}) [] ax = "Z" -> FlipZ(v, k) [] ax = "Y" -> Apply1(v, k, MY)
RECURSIVE PString(_, _, _)
PString(v, q, ax) == IF q = <<>> THEN v ELSE PString(PAxis(v, PosOf(Head(q)), Head(ax)), Tail(q), Tail(ax))
\* exp(i a P) and the projector (I + s P)/2 with s = -1 iff a = 1
PauliExp(c) == LET w == PString(psi, c.q, c.ax) IN
  << [i \in DOMAIN psi[1] |-> (Cos(c.a)*psi[1][i] - Sin(c.a)*w[2][i]) % P],
     [i \in DOMAIN psi[1] |-> (Cos(c.a)*psi[2][i] + Sin(c.a)*w[1][i]) % P] >>
PauliProj(c) == LET w == PString(psi, c.q, c.ax)  s == IF c.a = 1 THEN P - 1 ELSE 1 IN
  << [i \in DOMAIN psi[1] |-> (HALF * ((psi[1][i] + s*w[1][i]) % P)) % P],
     [i \in DOMAIN psi[1] |-> (HALF * ((psi[2][i] + s*w[2][i]) % P)) % P] >>
StringGates == {"PEXP", "PROJ"}
Axes == {"X", "Y", "Z"}
Gates == Gates1 \cup {"CNOT", "CZ", "SWAP", "RZZ", "CCX"}
GateArity(g) == IF g \in Gates1 THEN 1 ELSE IF g = "CCX" THEN 3 ELSE 2
GateOK(c) ==
  /\ \A i \in DOMAIN c.q : IsLive(c.q[i])
  /\ \A i, j \in DOMAIN c.q : i # j => c.q[i] # c.q[j]
  /\ \/ c.g \in Gates /\ Len(c.q) = GateArity(c.g)
     \/ c.g \in StringGates /\ Len(c.ax) = Len(c.q) /\ \A i \in DOMAIN c.ax : c.ax[i] \in Axes
Gate ==
  /\ Running /\ Cmd.k = "G" /\ GateOK(Cmd)
  /\ psi' = CASE Cmd.g = "PEXP" -> PauliExp(Cmd)
              [] Cmd.g = "PROJ" -> PauliProj(Cmd)
              [] OTHER -> GateApply(Cmd.g, Cmd.q, Cmd.a)
  /\ UNCHANGED << live, out >> /\ Step

Enabled ==
  CASE Cmd.k = "N" -> ~IsLive(Cmd.n) /\ Cmd.n \notin DOMAIN out /\ Cmd.st \in States
    [] Cmd.k = "E" -> Cmd.a # Cmd.b /\ IsLive(Cmd.a) /\ IsLive(Cmd.b)
    [] Cmd.k = "M" -> MeasEnabled
    [] Cmd.k \in {"X", "Z"} -> IsLive(Cmd.n) /\ Known(Cmd.d)
    [] Cmd.k = "C" -> IsLive(Cmd.n)
    [] Cmd.k = "G" -> GateOK(Cmd)
    [] OTHER -> FALSE

\* The program wants to do something no runnable program may do.
Stuck ==
  /\ Running /\ ~Enabled
  /\ verdict' = ph \o ":illegal-" \o Cmd.k
  /\ ph' = "done"
  /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> verdict']))
  /\ UNCHANGED << cid, br, pc, live, psi, out, sav >>

\* ---------------------------------------------------- end of a program
Ended == verdict = "running" /\ ph # "done" /\ pc > NCmds
OutputsOK == /\ Len(live) = Len(Prog.outputs)
             /\ \A i \in DOMAIN Prog.outputs : IsLive(Prog.outputs[i])
Ordered == Permute(psi, [k \in 1..(NRef + Len(live)) |->
                          IF k <= NRef THEN k - 1 ELSE PosOf(Prog.outputs[k - NRef])])

FinishA ==
  /\ Ended /\ ph = "A" /\ OutputsOK
  /\ sav' = [psi |-> Ordered, out |-> out, nout |-> Len(live)]
  /\ ph' = "B" /\ pc' = 1
  /\ live' = Case.B.inputs
  /\ psi' = ChoiInit(NRef)
  /\ out' = << >>
  /\ UNCHANGED << cid, br, verdict >>

Compare ==
  LET r == Ordered IN
  IF Len(live) # sav.nout THEN "output-arity"
  ELSE IF Case.ex = 1 /\ IsZeroVec(r) # IsZeroVec(sav.psi) THEN "zero"
  ELSE IF ~Proportional(sav.psi, r) THEN "map"
  ELSE IF Case.ka >= 0 /\ (Norm2(sav.psi) * FPow2(Case.ka)) % P # (Norm2(r) * FPow2(Case.kb)) % P THEN "weight"
  ELSE IF Case.nz = 1 /\ IsZeroVec(r) THEN "zero"
  ELSE "ok"

FinishB ==
  /\ Ended /\ ph = "B" /\ OutputsOK
  /\ verdict' = Compare
  /\ ph' = "done"
  /\ IF Case.ex = 1 THEN PrintT(ToJson([v |-> "E", id |-> Case.id, ao |-> ToString(sav.out), c |-> verdict']))
     ELSE IF verdict' = "ok" THEN PrintT(ToJson([v |-> "K", id |-> Case.id]))
     ELSE PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> verdict', ao |-> ToString(sav.out), bo |-> ToString(out)]))
  /\ UNCHANGED << cid, br, pc, live, psi, out, sav >>

BadOutputs ==
  /\ Ended /\ ~OutputsOK
  /\ verdict' = ph \o ":outputs"
  /\ ph' = "done"
  /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> verdict']))
  /\ UNCHANGED << cid, br, pc, live, psi, out, sav >>

BadStart ==
  /\ ph = "A" /\ pc = 1 /\ verdict \in {"schedule", "input-arity"}
  /\ ph' = "done"
  /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> verdict]))
  /\ UNCHANGED << cid, br, pc, live, psi, out, sav, verdict >>

Next == Prepare \/ Entangle \/ Measure \/ Correct \/ LocalClifford \/ Gate
        \/ Stuck \/ FinishA \/ FinishB \/ BadOutputs \/ BadStart
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------- machine sanity (checked)
RegisterInv == Size(psi) = Pow2(NRef + Len(live))
NoGhosts == \A i \in DOMAIN live : live[i] \notin DOMAIN out
=============================================================================
