-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* What the random generators announce.                                    *)
(*                                                                         *)
(* Matrices and vectors are recorded in fixed point (unit = 10^4) and      *)
(* judged by exact integer arithmetic up to the rounding of the recording: *)
(* Hermitian, unitary, of unit trace, positive semidefinite of a given     *)
(* rank (signs of the elementary symmetric functions of the eigenvalues,   *)
(* by Newton's identities), normalised, and, for lists of Kraus operators, *)
(* trace preserving with the announced number of operators, each of them   *)
(* proportional to its own Pauli string when that is announced.            *)
(*                                                                         *)
(* Circuits are consumed one instruction at a time by a machine that knows *)
(* the current layer: which qubits still await which rotation, which pairs *)
(* still await their entangler, which kinds of gates the layer has had.    *)
(*                                                                         *)
(* Case: [id, kind, dim, rank, mats, props, n, depth, ins, pairs, ent,     *)
(*        must, may, a, b]                                                 *)
(*   kind: mat / kraus / vec / circ / gate / same                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
U == 10000
VARIABLES cid, pos, lay, st, verdict
vars == << cid, pos, lay, st, verdict >>
Case == Cases[cid]
D == Case.dim
Rng(s) == { s[k] : k \in DOMAIN s }
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
SumTo(F(_), n) == FoldFunction(LAMBDA x, y : x + y, 0, [k \in 1..n |-> F(k)])

\* ------------------------------------------------ fixed-point matrices
\* a matrix is << re, im >>, each a sequence of rows
Re(m, i, j) == m[1][i][j]
Im(m, i, j) == m[2][i][j]
Rnd(x) == IF x >= 0 THEN (x + U \div 2) \div U ELSE -((U \div 2 - x) \div U)
\* (A^dagger B)_{ij} and (A B)_{ij}, scaled by U^2
DagRe(a, b, i, j) == SumTo(LAMBDA k : Re(a, k, i) * Re(b, k, j) + Im(a, k, i) * Im(b, k, j), D)
DagIm(a, b, i, j) == SumTo(LAMBDA k : Re(a, k, i) * Im(b, k, j) - Im(a, k, i) * Re(b, k, j), D)
Mul(a, b) == << [i \in 1..D |-> [j \in 1..D |-> Rnd(SumTo(LAMBDA k : Re(a, i, k) * Re(b, k, j) - Im(a, i, k) * Im(b, k, j), D))]],
                [i \in 1..D |-> [j \in 1..D |-> Rnd(SumTo(LAMBDA k : Re(a, i, k) * Im(b, k, j) + Im(a, i, k) * Re(b, k, j), D))]] >>
Tr(m) == SumTo(LAMBDA k : Re(m, k, k), D)
Slack == 4 * D * U                                       \* of a sum of D products, scaled by U^2
Square(m) == Len(m[1]) = D /\ Len(m[2]) = D /\ \A i \in 1..D : Len(m[1][i]) = D /\ Len(m[2][i]) = D
Hermitian(m) == \A i, j \in 1..D : Near(Re(m, i, j), Re(m, j, i), 2) /\ Near(Im(m, i, j), -Im(m, j, i), 2)
Unitary(m) == \A i, j \in 1..D : Near(DagRe(m, m, i, j), IF i = j THEN U * U ELSE 0, Slack) /\ Near(DagIm(m, m, i, j), 0, Slack)
\* elementary symmetric functions of the eigenvalues (scaled by U), k <= 4
Powers(m) == CHOOSE p \in { << Tr(m), Tr(m2), Tr(m3), Tr(m4) >> : << m2, m3, m4 >> \in { << x, y, Mul(x, x) >> : << x, y >> \in { << z, Mul(z, m) >> : z \in {Mul(m, m)} } } } : TRUE
Sym(m) == LET p == Powers(m) e1 == p[1]
              e2 == Rnd(e1 * p[1] - U * p[2]) \div 2
              e3 == (Rnd(e2 * p[1]) - Rnd(e1 * p[2]) + p[3]) \div 3
              e4 == (Rnd(e3 * p[1]) - Rnd(e2 * p[2]) + Rnd(e1 * p[3]) - p[4]) \div 4 IN << e1, e2, e3, e4 >>
Tol == 40
Positive(m, r) == \A s \in {Sym(m)} : \A k \in 1..Min({4, D}) : s[k] >= -Tol /\ (k > r => s[k] <= Tol)
\* -------------------------------------------------------------- Kraus lists
Total(i, j) == << SumTo(LAMBDA q : DagRe(Case.mats[q], Case.mats[q], i, j), Len(Case.mats)), SumTo(LAMBDA q : DagIm(Case.mats[q], Case.mats[q], i, j), Len(Case.mats)) >>
Preserving == \A i, j \in 1..D : \A t \in {Total(i, j)} : Near(t[1], IF i = j THEN U * U ELSE 0, 20 * Slack) /\ Near(t[2], 0, 20 * Slack)
\* Pauli strings, up to a factor: one entry per column, in row (column xor x), all of one modulus, with the signs of (-1)^(z.column)
RECURSIVE Parity(_)
Parity(v) == IF v = 0 THEN 0 ELSE ((v % 2) + Parity(v \div 2)) % 2
RECURSIVE BitAnd(_, _)
BitAnd(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE (x % 2) * (y % 2) + 2 * BitAnd(x \div 2, y \div 2)
BitXor(a, b) == a + b - 2 * BitAnd(a, b)
Is(m, x, z) == \A c \in 0..(D - 1) : \A row \in 0..(D - 1) :
  IF row # BitXor(c, x) THEN Near(Re(m, row + 1, c + 1), 0, 2) /\ Near(Im(m, row + 1, c + 1), 0, 2)
  ELSE LET g == IF Parity(BitAnd(c, z)) = 1 THEN -1 ELSE 1 IN
       Near(g * Re(m, row + 1, c + 1), Re(m, x + 1, 1), 2) /\ Near(g * Im(m, row + 1, c + 1), Im(m, x + 1, 1), 2)
Strings(m) == { q \in (0..(D - 1)) \X (0..(D - 1)) : Is(m, q[1], q[2]) }
Paulis == /\ \A k \in DOMAIN Case.mats : Strings(Case.mats[k]) # {}
          /\ \A k, l \in DOMAIN Case.mats : k # l => Strings(Case.mats[k]) \cap Strings(Case.mats[l]) = {}

Has(p) == p \in Rng(Case.props)
Numeric ==
  IF Case.kind = "vec" THEN IF Len(Case.mats[1][1]) # 1 \/ Len(Case.mats[1][1][1]) # D THEN "size"
                            ELSE IF ~Near(SumTo(LAMBDA k : Case.mats[1][1][1][k] * Case.mats[1][1][1][k] + Case.mats[1][2][1][k] * Case.mats[1][2][1][k], D), U * U, Slack) THEN "norm" ELSE "ok"
  ELSE IF \E k \in DOMAIN Case.mats : ~Square(Case.mats[k]) THEN "size"
  ELSE IF Case.kind = "kraus" THEN IF Len(Case.mats) # Case.rank THEN "rank" ELSE IF ~Preserving THEN "not-trace-preserving" ELSE IF Has("pauli") /\ ~Paulis THEN "not-pauli" ELSE "ok"
  ELSE LET m == Case.mats[1] IN
       IF Has("herm") /\ ~Hermitian(m) THEN "not-hermitian" ELSE IF Has("unit") /\ ~Unitary(m) THEN "not-unitary"
       ELSE IF Has("trace") /\ ~Near(Tr(m), U, 2 * D) THEN "trace" ELSE IF Has("psd") /\ ~Positive(m, Case.rank) THEN "not-a-state-of-that-rank" ELSE "ok"

\* ------------------------------------------------------------ the circuit machine
Ins == Case.ins
Cur == Ins[pos]
Qs == 0..(Case.n - 1)
Single == Len(Cur.q) = 1
\* rand_gate: layer 2k is a layer of rotations, layer 2k + 1 entangles the pairs in order
Wanted(l) == IF l = 0 THEN << "RX" >> ELSE IF l = 2 * Case.depth THEN << "RZ" >> ELSE << "RX", "RZ" >>
Init == cid \in DOMAIN Cases /\ pos = 1 /\ lay = 0 /\ verdict = ""
        /\ st = [todo |-> [q \in 0..(Case.n - 1) |-> IF Case.kind = "gate" THEN << "RX" >> ELSE << "?" >>], kinds |-> {}, k |-> 0]
Out(v) == verdict' = v /\ PrintT(ToJson(IF v = "ok" THEN [v |-> "K", id |-> Case.id] ELSE [v |-> "F", id |-> Case.id, c |-> v])) /\ UNCHANGED << cid, pos, lay, st >>
Running == verdict = "" /\ Case.kind \in {"circ", "gate"}
Valid == pos <= Len(Ins) /\ Rng(Cur.q) \subseteq Qs /\ Cardinality(Rng(Cur.q)) = Len(Cur.q)
RotationsDone == \A q \in Qs : st.todo[q] = << >>
Step(new, l) == st' = new /\ lay' = l /\ pos' = pos + 1 /\ UNCHANGED << cid, verdict >>
Enter(l) == st' = [todo |-> [q \in Qs |-> IF Case.kind = "circ" THEN << "?" >> ELSE IF l % 2 = 0 THEN Wanted(l) ELSE << >>], kinds |-> {}, k |-> 0] /\ lay' = l /\ UNCHANGED << cid, pos, verdict >>
Rotate == Running /\ Case.kind = "gate" /\ Valid /\ lay % 2 = 0 /\ ~RotationsDone /\ Single /\ st.todo[Cur.q[1]] # << >> /\ Cur.g = Head(st.todo[Cur.q[1]])
          /\ Step([st EXCEPT !.todo[Cur.q[1]] = Tail(@)], lay)
Entangle == Running /\ Case.kind = "gate" /\ Valid /\ lay % 2 = 1 /\ st.k < Len(Case.pairs) /\ Cur.g = Case.ent
            /\ (IF Cur.g = "RZZ" THEN Rng(Cur.q) = Rng(Case.pairs[st.k + 1]) ELSE Cur.q = Case.pairs[st.k + 1]) /\ Step([st EXCEPT !.k = @ + 1], lay)
LayerEnds == lay < 2 * Case.depth /\ Case.kind = "gate" /\ IF lay % 2 = 0 THEN RotationsDone ELSE st.k = Len(Case.pairs)
NextLayer == Running /\ LayerEnds /\ Enter(lay + 1)
\* rand_circuit: entangling gates first, then one single-qubit gate on every qubit
Mix == Running /\ Case.kind = "circ" /\ Valid /\ lay < Case.depth /\ ~Single /\ Cur.g \in Rng(Case.may) /\ (\A q \in Qs : st.todo[q] # << >>) /\ Step([st EXCEPT !.kinds = @ \cup {Cur.g}], lay)
One == Running /\ Case.kind = "circ" /\ Valid /\ lay < Case.depth /\ Single /\ Cur.g \in Rng(Case.may) /\ st.todo[Cur.q[1]] # << >> /\ Rng(Case.must) \subseteq st.kinds
       /\ Step([st EXCEPT !.todo[Cur.q[1]] = << >>], lay)
LayerFull == Running /\ Case.kind = "circ" /\ Case.n > 0 /\ RotationsDone /\ lay < Case.depth /\ Enter(lay + 1)
Complete == pos > Len(Ins) /\ IF Case.kind = "gate" THEN lay = 2 * Case.depth /\ RotationsDone ELSE lay = Case.depth
Accept == Running /\ Complete /\ (IF \A g \in Rng(Case.reach) : \E k \in DOMAIN Ins : << Ins[k].g, Ins[k].p >> = g THEN Out("ok") ELSE Out("parameter-never-used"))
Moves == Rotate \/ Entangle \/ NextLayer \/ Mix \/ One \/ LayerFull
Stuck == Running /\ ~Complete /\ ~ENABLED Moves /\ Out(IF pos > Len(Ins) THEN "circuit-too-short" ELSE IF ~Valid THEN "invalid-qubits" ELSE "unexpected-gate")
Judge == verdict = "" /\ Case.kind \in {"mat", "vec", "kraus"} /\ \E v \in {Numeric} : Out(v)
Compare == verdict = "" /\ Case.kind = "same" /\ Out(IF Case.a = Case.b THEN "ok" ELSE "not-reproducible")
Next == Moves \/ Accept \/ Stuck \/ Judge \/ Compare
Spec == Init /\ [][Next]_vars
Sane == pos \in 1..(Len(Case.ins) + 1) /\ lay \in 0..(2 * Case.depth + 1)
=============================================================================
