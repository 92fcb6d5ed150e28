-------------------------------- MODULE QSem --------------------------------
(***************************************************************************)
(* Operational semantics of the quantum layer shared by every machine:     *)
(* a register of "live" nodes and an amplitude array over                  *)
(*   (reference qubits, live nodes).                                       *)
(* The array is indexed from 0; position k of the register has weight 2^k; *)
(* reference qubits (one per input, the Choi partners) take the low        *)
(* positions and are never touched, so the array is the matrix of the      *)
(* linear map performed so far, for every input at once.                   *)
(***************************************************************************)
EXTENDS FCField, FiniteSets, TLC, SequencesExt

Bit(i, k) == (i \div Pow2(k)) % 2

\* --- amplitude arrays are pairs <<re, im>> of functions 0..N-1 -> 0..P-1 ---
Size(psi) == Cardinality(DOMAIN psi[1])

\* Choi state of n inputs: sum_x |x>_ref |x>_in
ChoiInit(n) ==
  LET N == Pow2(2*n) IN
  << [i \in 0..(N-1) |-> IF (i % Pow2(n)) = (i \div Pow2(n)) THEN 1 ELSE 0],
     [i \in 0..(N-1) |-> 0] >>

\* append one qubit in state <<a, b>> (each a complex pair) at the top position
AddQubit(psi, a, b) ==
  LET N == Size(psi)
      amp(i, c) == IF i < N THEN a ELSE b
  IN << [i \in 0..(2*N-1) |-> LET v == IF i < N THEN a ELSE b  j == i % N
                              IN (psi[1][j]*v[1] - psi[2][j]*v[2]) % P],
        [i \in 0..(2*N-1) |-> LET v == IF i < N THEN a ELSE b  j == i % N
                              IN (psi[1][j]*v[2] + psi[2][j]*v[1]) % P] >>

\* sign flip wherever all positions of K are 1 (Z, CZ)
PhaseFlip(psi, w) ==       \* w : set of positions
  LET f == [i \in DOMAIN psi[1] |-> \A k \in w : Bit(i, k) = 1] IN
  << [i \in DOMAIN psi[1] |-> IF f[i] THEN (P - psi[1][i]) % P ELSE psi[1][i]],
     [i \in DOMAIN psi[1] |-> IF f[i] THEN (P - psi[2][i]) % P ELSE psi[2][i]] >>

FlipCZ(psi, k, l) ==
  LET wk == Pow2(k)  wl == Pow2(l) IN
  << [i \in DOMAIN psi[1] |-> IF (i \div wk) % 2 = 1 /\ (i \div wl) % 2 = 1 THEN (P - psi[1][i]) % P ELSE psi[1][i]],
     [i \in DOMAIN psi[1] |-> IF (i \div wk) % 2 = 1 /\ (i \div wl) % 2 = 1 THEN (P - psi[2][i]) % P ELSE psi[2][i]] >>
FlipZ(psi, k) == FlipCZ(psi, k, k)

\* X on position k when positions in c are all 1
ApplyX(psi, k, c) ==
  LET w == Pow2(k)
      src(i) == IF \A m \in c : Bit(i, m) = 1
                THEN (IF (i \div w) % 2 = 1 THEN i - w ELSE i + w) ELSE i
  IN << [i \in DOMAIN psi[1] |-> psi[1][src(i)]], [i \in DOMAIN psi[1] |-> psi[2][src(i)]] >>

\* general 2x2 matrix m = <<m00, m01, m10, m11>> of complex pairs on position k
Apply1(psi, k, m) ==
  LET w == Pow2(k) IN
  << [i \in DOMAIN psi[1] |->
        IF (i \div w) % 2 = 0
        THEN (m[1][1]*psi[1][i] - m[1][2]*psi[2][i] + m[2][1]*psi[1][i+w] - m[2][2]*psi[2][i+w]) % P
        ELSE (m[3][1]*psi[1][i-w] - m[3][2]*psi[2][i-w] + m[4][1]*psi[1][i] - m[4][2]*psi[2][i]) % P],
     [i \in DOMAIN psi[1] |->
        IF (i \div w) % 2 = 0
        THEN (m[1][1]*psi[2][i] + m[1][2]*psi[1][i] + m[2][1]*psi[2][i+w] + m[2][2]*psi[1][i+w]) % P
        ELSE (m[3][1]*psi[2][i-w] + m[3][2]*psi[1][i-w] + m[4][1]*psi[2][i] + m[4][2]*psi[1][i]) % P] >>

\* project position k onto the (normalised) vector v = <<v0, v1>> and drop it
Project(psi, k, v) ==
  LET w == Pow2(k)
      N == Size(psi) \div 2
      a == CConj(v[1])   b == CConj(v[2])
      at(j) == (j \div w) * (2*w) + (j % w)
  IN << [j \in 0..(N-1) |-> (a[1]*psi[1][at(j)] - a[2]*psi[2][at(j)] + b[1]*psi[1][at(j)+w] - b[2]*psi[2][at(j)+w]) % P],
        [j \in 0..(N-1) |-> (a[1]*psi[2][at(j)] + a[2]*psi[1][at(j)] + b[1]*psi[2][at(j)+w] + b[2]*psi[1][at(j)+w]) % P] >>

\* swap two positions
SwapPos(psi, k, l) ==
  LET wk == Pow2(k)  wl == Pow2(l)
      src(i) == LET bk == (i \div wk) % 2  bl == (i \div wl) % 2
                IN i - bk*wk - bl*wl + bl*wk + bk*wl
  IN << [i \in DOMAIN psi[1] |-> psi[1][src(i)]], [i \in DOMAIN psi[1] |-> psi[2][src(i)]] >>

\* bring register positions into the order perm: new position k holds old position perm[k+1]
\* (perm is a sequence of 0-based positions covering the whole register)
Permute(psi, perm) ==
  LET n == Len(perm)
      RECURSIVE src(_, _)
      src(i, k) == IF k = n THEN 0 ELSE Bit(i, k) * Pow2(perm[k+1]) + src(i, k+1)
      s == [i \in DOMAIN psi[1] |-> src(i, 0)]
  IN << [i \in DOMAIN psi[1] |-> psi[1][s[i]]], [i \in DOMAIN psi[1] |-> psi[2][s[i]]] >>

\* ---------------------------------------------------------------- matrices
R0(x) == <<x, 0>>
MI == <<COne, CZero, CZero, COne>>
MX == <<CZero, COne, COne, CZero>>
MY == <<CZero, <<0, P-1>>, CI, CZero>>
MZ == <<COne, CZero, CZero, <<P-1, 0>> >>
MH == << R0(IS2), R0(IS2), R0(IS2), R0(P - IS2) >>
MS == <<COne, CZero, CZero, CI>>
\* R_P(a) = exp(-i a/2 P), a on the grid (even)
MRX(a) == LET h == a \div 2 IN << R0(Cos(h)), <<0, (-Sin(h)) % P>>, <<0, (-Sin(h)) % P>>, R0(Cos(h)) >>
MRY(a) == LET h == a \div 2 IN << R0(Cos(h)), R0((-Sin(h)) % P), R0(Sin(h)), R0(Cos(h)) >>
MRZ(a) == LET h == a \div 2 IN << Cis(-h), CZero, CZero, Cis(h) >>
\* J(a) = H diag(1, e^{ia})
MJ(a)  == << R0(IS2), CScale(IS2, Cis(a)), R0(IS2), CScale(P - IS2, Cis(a)) >>

\* ------------------------------------------------------------ measurements
\* Eigenvector for outcome b of the observable
\*   XY: cos a X + sin a Y ;  YZ: cos a Z + sin a Y ;  XZ: cos a Z + sin a X
\* (axes X, Y, Z are angle 0/quarter turns of a plane).
Ket(pl, a, b) ==
  CASE pl = "XY" -> << R0(IS2), CScale(IF b = 0 THEN IS2 ELSE P - IS2, Cis(a)) >>
    [] pl = "YZ" -> LET h == a \div 2 IN
                    IF b = 0 THEN << R0(Cos(h)), <<0, Sin(h)>> >>
                             ELSE << R0(Sin(h)), <<0, (-Cos(h)) % P>> >>
    [] pl = "XZ" -> LET h == a \div 2 IN
                    IF b = 0 THEN << R0(Cos(h)), R0(Sin(h)) >>
                             ELSE << R0(Sin(h)), R0((-Cos(h)) % P) >>
Planes == {"XY", "YZ", "XZ"}

\* ------------------------------------------------------------- comparison
IsZeroVec(psi) == \A i \in DOMAIN psi[1] : psi[1][i] = 0 /\ psi[2][i] = 0
Amp(psi, i) == << psi[1][i], psi[2][i] >>
Norm2(psi) ==
  LET RECURSIVE S(_)
      S(i) == IF i < 0 THEN 0 ELSE (CNorm(Amp(psi, i)) + S(i-1)) % P
  IN S(Size(psi) - 1)
Pivot(psi) == CHOOSE i \in DOMAIN psi[1] :
                 /\ ~CIsZero(Amp(psi, i))
                 /\ \A j \in DOMAIN psi[1] : j < i => CIsZero(Amp(psi, j))
Proportional(a, b) ==
  \/ IsZeroVec(a) /\ IsZeroVec(b)
  \/ /\ ~IsZeroVec(a) /\ ~IsZeroVec(b)
     /\ LET j == Pivot(a)
            u == Amp(a, j)  v == Amp(b, j)
        IN \A i \in DOMAIN a[1] : CMul(Amp(a, i), v) = CMul(Amp(b, i), u)
=============================================================================
