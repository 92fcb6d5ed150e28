------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The single-qubit algebra the package works with: Pauli operators with   *)
(* units, the 24 Cliffords modulo phase, planes, axes, signs, and          *)
(* measurements, all read as matrices and vectors over the exact amplitude *)
(* field (FCField).  Each case is one recorded call; every operation has   *)
(* one action, which compares the result with the matrices' algebra.       *)
(***************************************************************************)
EXTENDS QSem, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CASES)
Cases == Conf
VARIABLES cid, verdict
vars == << cid, verdict >>
Case == Cases[cid]

MatMul(a, b) == << CAdd(CMul(a[1], b[1]), CMul(a[2], b[3])), CAdd(CMul(a[1], b[2]), CMul(a[2], b[4])),
                   CAdd(CMul(a[3], b[1]), CMul(a[4], b[3])), CAdd(CMul(a[3], b[2]), CMul(a[4], b[4])) >>
Dagger(m) == << CConj(m[1]), CConj(m[3]), CConj(m[2]), CConj(m[4]) >>
Scale(c, m) == [i \in DOMAIN m |-> CMul(c, m[i])]
MatVec(m, v) == << CAdd(CMul(m[1], v[1]), CMul(m[2], v[2])), CAdd(CMul(m[3], v[1]), CMul(m[4], v[2])) >>
Prop(a, b) == /\ \A i, j \in DOMAIN a : CMul(a[i], b[j]) = CMul(a[j], b[i])
              /\ (\E i \in DOMAIN a : ~CIsZero(a[i])) /\ (\E i \in DOMAIN b : ~CIsZero(b[i]))
Unit(u) == CASE u = 0 -> COne [] u = 1 -> CI [] u = 2 -> <<P - 1, 0>> [] u = 3 -> <<0, P - 1>>
SymMat(s) == CASE s = "I" -> MI [] s = "X" -> MX [] s = "Y" -> MY [] s = "Z" -> MZ
PauliMat(p) == Scale(Unit(p[2]), SymMat(p[1]))          \* p = <<symbol, unit>>
RECURSIVE Product(_)
Product(ms) == IF ms = <<>> THEN MI ELSE MatMul(Head(ms), Product(Tail(ms)))
Sdg == Dagger(MS)
\* OpenQASM 3 names, applied left to right
QMat(g) == CASE g = "id" -> MI [] g = "x" -> MX [] g = "y" -> MY [] g = "z" -> MZ [] g = "s" -> MS
             [] g = "sdg" -> Sdg [] g = "h" -> MH
             [] g = "sx" -> MatMul(MH, MatMul(MS, MH)) [] OTHER -> <<CZero, CZero, CZero, CZero>>
RECURSIVE Applied(_)
Applied(gs) == IF gs = <<>> THEN MI ELSE MatMul(Applied(Tail(gs)), QMat(Head(gs)))
HszMat(g) == CASE g = "I" -> MI [] g = "H" -> MH [] g = "S" -> MS [] g = "Z" -> MZ [] OTHER -> <<CZero, CZero, CZero, CZero>>

\* Bloch vector of a ket, and the observable of a plane
Exp(v, m) == LET w == MatVec(m, v) IN CAdd(CMul(CConj(v[1]), w[1]), CMul(CConj(v[2]), w[2]))
Bloch(v) == << Exp(v, MX), Exp(v, MY), Exp(v, MZ) >>
PlaneAxes(pl) == CASE pl = "XY" -> << "X", "Y" >> [] pl = "YZ" -> << "Z", "Y" >> [] pl = "XZ" -> << "Z", "X" >>   \* cosine axis, sine axis

\* a measurement: <<"P", axis, sign>> or <<"B", plane, angle>>; its kets
KetOf(m, b) == IF m[1] = "B" THEN Ket(m[2], m[3], b)
               ELSE LET c == IF m[3] = 1 THEN b ELSE 1 - b IN
                    CASE m[2] = "X" -> Ket("XY", 0, c) [] m[2] = "Y" -> Ket("XY", 2048, c) [] m[2] = "Z" -> Ket("YZ", 0, c)
SameM(m, n) == \A b \in 0..1 : Prop(KetOf(m, b), KetOf(n, b))
\* P = |m_0><m_0| - |m_1><m_1|
Diff(u, v) == IF u < v THEN v - u ELSE u - v
Max2(u, v) == IF u < v THEN v ELSE u
AbsV(u) == IF u < 0 THEN 0 - u ELSE u
IsPauliM(m) == m[1] = "P" \/ m[3] % 2048 = 0

Clauses == CASE
     Case.t = "cliff" ->  \* one Clifford: matrix, conj, decompositions, label table
       << << "hsz", Prop(Case.m, Product([i \in DOMAIN Case.hsz |-> HszMat(Case.hsz[i])])) >>,
          << "qasm3", Prop(Case.m, Applied(Case.qasm)) >>,
          << "conj", Prop(Case.conj, Dagger(Case.m)) >>,
          << "unitary", Prop(MatMul(Case.m, Dagger(Case.m)), MI) >>,
          << "normalises-paulis", \A p \in {MX, MY, MZ} : \E q \in {MX, MY, MZ} : Prop(MatMul(Dagger(Case.m), MatMul(p, Case.m)), q) >> >>
  [] Case.t = "cname" -> << << "name", Prop(Case.m, QMat(Case.name)) >> >>
  [] Case.t = "cmul" -> << << "product", Prop(Case.r, MatMul(Case.a, Case.b)) >> >>
  [] Case.t = "cdist" -> << << "distinct", Case.same = (IF Prop(Case.a, Case.b) THEN 1 ELSE 0) >> >>
  [] Case.t = "cfrom" -> << << "from-matrix", IF Case.found = 1 THEN Prop(Case.a, Case.r) ELSE Case.cliff = 0 >> >>
  [] Case.t = "cmeas" -> << << "conjugation", PauliMat(Case.r) = MatMul(Dagger(Case.m), MatMul(PauliMat(Case.p), Case.m)) >> >>
  [] Case.t = "cdom" ->     \* X^s Z^t C = C X^s' Z^t'
       << << "domains", LET XZ(s, t) == MatMul(IF s = 1 THEN MX ELSE MI, IF t = 1 THEN MZ ELSE MI) IN
                        Prop(MatMul(XZ(Case.s, Case.tt), Case.m), MatMul(Case.m, XZ(Case.s2, Case.t2))) >> >>
  [] Case.t = "caxis" -> << << "axis", Prop(SymMat(Case.r), MatMul(Dagger(Case.m), MatMul(SymMat(Case.ax), Case.m))) >> >>
  [] Case.t = "cplane" -> << << "plane", {Case.ax[1], Case.ax[2]} = {PlaneAxes(Case.pl)[1], PlaneAxes(Case.pl)[2]}
                                          /\ {PlaneAxes(Case.r)[1], PlaneAxes(Case.r)[2]} = {Case.rx[1], Case.rx[2]} >> >>
  [] Case.t = "pmul" -> << << "product", PauliMat(Case.r) = MatMul(PauliMat(Case.a), PauliMat(Case.b)) >> >>
  [] Case.t = "punit" -> << << "unit", PauliMat(Case.r) = Scale(Unit(Case.u), PauliMat(Case.a)) >> >>
  [] Case.t = "pmat" -> << << "matrix", Case.m = PauliMat(Case.a) >> >>
  [] Case.t = "ptab" ->      \* << x_0 .. x_(n-1), z_0 .. z_(n-1), sign >> against a signed string of axes
       << << "refusal", Case.found = (IF Case.flat = 1 /\ Len(Case.tab) % 2 = 1 THEN 1 ELSE 0) >>,
          << "tableau", Case.found = 0 \/
               LET n == Len(Case.tab) \div 2 IN
               /\ Case.dim = n /\ Len(Case.axes) = n
               /\ \A i \in 1..n : Case.axes[i] = (CASE << Case.tab[i], Case.tab[n + i] >> = << 0, 0 >> -> "I"
                                                     [] << Case.tab[i], Case.tab[n + i] >> = << 1, 0 >> -> "X"
                                                     [] << Case.tab[i], Case.tab[n + i] >> = << 0, 1 >> -> "Z"
                                                     [] OTHER -> "Y")
               /\ Case.sign = (IF Case.tab[2 * n + 1] = 1 THEN -1 ELSE 1) >>,
          << "absent", Case.found = 0 \/ Case.extra = 0 >> >>
  [] Case.t = "peig" -> << << "eigenstate",        \* symbol . |b> = (-1)^b |b>  (identity: always +)
                              LET sg == IF Case.b = 1 /\ Case.s # "I" THEN << P - 1, 0 >> ELSE COne IN
                              /\ MatVec(SymMat(Case.s), Case.v) = << CMul(sg, Case.v[1]), CMul(sg, Case.v[2]) >>
                              /\ CAdd(CMul(Case.v[1], CConj(Case.v[1])), CMul(Case.v[2], CConj(Case.v[2]))) = COne >> >>
  [] Case.t = "unit" -> << << "unit", Unit(Case.r) = CMul(Unit(Case.a), Unit(Case.b)) >> >>
  [] Case.t = "uprop" -> << << "properties", Unit(Case.a) = CMul(IF Case.sign = -1 THEN << P - 1, 0 >> ELSE COne, IF Case.imag = 1 THEN CI ELSE COne) >>,
                            << "complex", Unit(Case.a) = << Case.re % P, Case.im % P >> >> >>
  [] Case.t = "ufrom" -> << << "from-or-none", IF Case.r = -1 THEN ~(\E u \in 0..3 : Unit(u) = << Case.re % P, Case.im % P >> /\ Case.den = 1)
                                               ELSE Case.den = 1 /\ Unit(Case.r) = << Case.re % P, Case.im % P >> >> >>
  [] Case.t = "plane" -> << << "cos", Case.cos = PlaneAxes(Case.pl)[1] >>, << "sin", Case.sin = PlaneAxes(Case.pl)[2] >>,
                            << "axes", {Case.axes[1], Case.axes[2]} = {Case.cos, Case.sin} >>,
                            << "orth", Case.orth \notin {Case.cos, Case.sin} /\ Case.orth \in {"X", "Y", "Z"} >>,
                            << "from-axes", Case.back = Case.pl /\ Case.back2 = Case.pl >> >>
  [] Case.t = "polar" ->   \* the direction is that of the outcome-0 ket; r[i] names the entry: "c", "s" or "0"
       << << "polar", LET v == Bloch(Ket(Case.pl, Case.a, 0)) IN
                      \A i \in 1..3 : v[i] = (CASE Case.r[i] = "c" -> << Cos(Case.a), 0 >> [] Case.r[i] = "s" -> << Sin(Case.a), 0 >>
                                              [] Case.r[i] = "0" -> CZero [] OTHER -> << 1, 1 >>) >> >>
  [] Case.t = "sign" -> << << "sign", Case.r = Case.a * Case.b >> >>
  [] Case.t = "mcliff" -> << << "clifford", \A b \in 0..1 : Prop(KetOf(Case.r, b), MatVec(Dagger(Case.m), KetOf(Case.a, b))) >>,
                             << "kind", Case.r[1] = Case.a[1] >> >>
  [] Case.t = "mconv" -> << << "projectors", SameM(Case.a, Case.r) >>, << "kind", Case.r[1] = Case.want >> >>
  [] Case.t = "mpauli" -> << << "recognition", Case.found = (IF IsPauliM(Case.a) THEN 1 ELSE 0) >>,
                             << "projectors", Case.found = 1 => SameM(Case.a, Case.r) /\ Case.r[1] = "P" >> >>
  [] Case.t = "mflip" -> << << "negation", SameM(Case.r, << Case.a[1], Case.a[2], 0 - Case.a[3] >>) /\
                                           Prop(KetOf(Case.r, 0), KetOf(Case.a, 1)) >> >>
  [] Case.t = "mclose" ->   \* same representation, plane or axis; angles u, v in units of 10^-6 pi within R*10^-3 relative or A*10^-3 absolute tolerance
       << << "isclose", Case.r = (IF Case.a[1] = Case.b[1] /\ Case.a[2] = Case.b[2] /\
                                     (IF Case.a[1] = "P" THEN Case.a[3] = Case.b[3]
                                      ELSE Diff(Case.u, Case.v) * 1000 <= Max2(Case.R * Max2(AbsV(Case.u), AbsV(Case.v)), Case.A * 1000000)) THEN 1 ELSE 0) >> >>
  [] Case.t = "mtol" ->     \* is the angle u (units of 10^-6 pi) within tolerance of a multiple q of a quarter turn?
       LET e == Diff(Case.u, Case.q)
           m == Max2(AbsV(Case.u), AbsV(Case.q))
           near == 2 * e <= 500000
           sure == near /\ e * 1000 < Max2(Case.R * m, Case.A * 500000)
           never == e * 1000 > Max2(Case.R * m, Case.A * 1000000) IN
       << << "recognised", (sure => Case.found = 1) /\ (never => Case.found = 0) >>,
          << "nearest", Case.q % 500000 = 0 /\ near >>,
          << "projectors", Case.found = 1 => Case.r[1] = "P" /\ SameM(Case.r, << "B", Case.pl, (Case.q \div 500000) * 2048 >>) >> >>
  [] Case.t = "mnorm" ->    \* normalised angle (units of 10^-6 pi)
       << << "range", 0 <= Case.r /\ Case.r < 2000000 >>, << "same-angle", (Case.r - Case.u) % 2000000 = 0 >> >>
  [] OTHER -> << << "unknown-case", FALSE >> >>

Failed == {Clauses[i][1] : i \in {j \in DOMAIN Clauses : ~Clauses[j][2]}}
Init == cid \in DOMAIN Cases /\ verdict = "running"
Judge == /\ verdict = "running"
         /\ LET f == Failed IN
            /\ verdict' = IF f = {} THEN "ok" ELSE "bad"
            /\ IF f = {} THEN PrintT(ToJson([v |-> "K", id |-> Case.id]))
               ELSE \A c \in f : PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c]))
         /\ UNCHANGED cid
Next == Judge
Spec == Init /\ [][Next]_vars

\* the specification's own matrices obey the textbook relations
ASSUME Relations ==
  /\ MatMul(MX, MX) = MI /\ MatMul(MY, MY) = MI /\ MatMul(MZ, MZ) = MI
  /\ MatMul(MX, MY) = Scale(CI, MZ)
  /\ MatMul(MH, MatMul(MX, MH)) = MZ
  /\ MatMul(MS, MatMul(MX, Dagger(MS))) = MY
  /\ \A pl \in Planes : \A b \in 0..1 : \A a \in {0, 2, 1024, 2048, 4096, 5000} : Prop(Ket(pl, a + 4096, b), Ket(pl, a, 1 - b))
=============================================================================
