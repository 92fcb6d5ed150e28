-------------------------------- MODULE GSem --------------------------------
(***************************************************************************)
(* Exact unnormalised quantum states over the Gaussian integers.           *)
(*                                                                         *)
(* Angles are a = k*alpha + j*pi/2 with alpha = 2 arctan(1/2) (an          *)
(* irrational multiple of pi), written <<k, j>>.  With the half-angle      *)
(* number u(a) proportional to e^{i a/2}, every ket, rotation and          *)
(* measurement vector has Gaussian-integer entries up to a positive scale. *)
(* Scales are common to both outcomes of a measurement and to all entries  *)
(* of a gate, so probabilities are exact ratios of integers.               *)
(*                                                                         *)
(* A register is a sequence of names; its k-th name (from 0) has weight    *)
(* 2^k in the index of the amplitude arrays psi = <<re, im>>.              *)
(* A mixed state is an ensemble: a function from unnormalised vectors to   *)
(* positive integer weights.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Pow2(n) == 2^n
Bit(i, k) == (i \div Pow2(k)) % 2
Abs(x) == IF x < 0 THEN 0 - x ELSE x

GMul(a, b) == << a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1] >>
GConj(a) == << a[1], 0 - a[2] >>
GNeg(a) == << 0 - a[1], 0 - a[2] >>
RECURSIVE GPow(_, _)
GPow(a, n) == IF n = 0 THEN << 1, 0 >> ELSE GMul(a, GPow(a, n - 1))
Oct(j) == << <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>> >>[(j % 8) + 1]
U(a) == GMul(IF a[1] >= 0 THEN GPow(<<2, 1>>, a[1]) ELSE GPow(<<2, -1>>, 0 - a[1]), Oct(a[2]))

\* eigenvector of the plane's observable at angle a, for outcome b; both outcomes have the same norm
GKet(pl, a, b) ==
  LET u == U(a) IN
  CASE pl = "XY" -> << GConj(u), IF b = 0 THEN u ELSE GNeg(u) >>
    [] pl = "YZ" -> IF b = 0 THEN << <<u[1], 0>>, <<0, u[2]>> >> ELSE << <<u[2], 0>>, <<0, 0 - u[1]>> >>
    [] pl = "XZ" -> IF b = 0 THEN << <<u[1], 0>>, <<u[2], 0>> >> ELSE << <<u[2], 0>>, <<0 - u[1], 0>> >>

Zr == <<0, 0>>
One == <<1, 0>>
Im1 == <<0, 1>>
GI == << One, Zr, Zr, One >>
GX == << Zr, One, One, Zr >>
GY == << Zr, <<0, -1>>, Im1, Zr >>
GZ == << One, Zr, Zr, <<-1, 0>> >>
GH == << One, One, One, <<-1, 0>> >>
GS == << One, Zr, Zr, Im1 >>
GSdg == << One, Zr, Zr, <<0, -1>> >>
Pauli(s) == CASE s = "I" -> GI [] s = "X" -> GX [] s = "Y" -> GY [] s = "Z" -> GZ
GRX(a) == LET u == U(a) IN << <<u[1], 0>>, <<0, 0 - u[2]>>, <<0, 0 - u[2]>>, <<u[1], 0>> >>
GRY(a) == LET u == U(a) IN << <<u[1], 0>>, <<0 - u[2], 0>>, <<u[2], 0>>, <<u[1], 0>> >>
GRZ(a) == LET u == U(a) IN << GConj(u), Zr, Zr, u >>
GJ(a) == LET u == U(a) IN << GConj(u), u, GConj(u), GNeg(u) >>

Size(psi) == Cardinality(DOMAIN psi[1])
Amp(psi, i) == << psi[1][i], psi[2][i] >>

\* append a qubit in state <<a, b>> at the top position
AddQubit(psi, v) ==
  LET N == Size(psi) IN
  << [i \in 0..(2*N-1) |-> LET w == IF i < N THEN v[1] ELSE v[2]  j == i % N IN psi[1][j]*w[1] - psi[2][j]*w[2]],
     [i \in 0..(2*N-1) |-> LET w == IF i < N THEN v[1] ELSE v[2]  j == i % N IN psi[1][j]*w[2] + psi[2][j]*w[1]] >>
\* append a whole register whose amplitudes are phi
TensorTop(psi, phi) ==
  LET N == Size(psi)  K == Size(phi) IN
  << [i \in 0..(N*K-1) |-> psi[1][i % N]*phi[1][i \div N] - psi[2][i % N]*phi[2][i \div N]],
     [i \in 0..(N*K-1) |-> psi[1][i % N]*phi[2][i \div N] + psi[2][i % N]*phi[1][i \div N]] >>

FlipSign(psi, S) ==     \* sign change where all positions in S are 1
  LET f == [i \in DOMAIN psi[1] |-> \A k \in S : Bit(i, k) = 1] IN
  << [i \in DOMAIN psi[1] |-> IF f[i] THEN 0 - psi[1][i] ELSE psi[1][i]],
     [i \in DOMAIN psi[1] |-> IF f[i] THEN 0 - psi[2][i] ELSE psi[2][i]] >>
FlipX(psi, k, c) ==     \* X on position k where all positions in c are 1
  LET w == Pow2(k)
      src(i) == IF \A m \in c : Bit(i, m) = 1 THEN (IF Bit(i, k) = 1 THEN i - w ELSE i + w) ELSE i IN
  << [i \in DOMAIN psi[1] |-> psi[1][src(i)]], [i \in DOMAIN psi[1] |-> psi[2][src(i)]] >>
Apply1(psi, k, m) ==
  LET w == Pow2(k) IN
  << [i \in DOMAIN psi[1] |->
        IF (i \div w) % 2 = 0
        THEN m[1][1]*psi[1][i] - m[1][2]*psi[2][i] + m[2][1]*psi[1][i+w] - m[2][2]*psi[2][i+w]
        ELSE m[3][1]*psi[1][i-w] - m[3][2]*psi[2][i-w] + m[4][1]*psi[1][i] - m[4][2]*psi[2][i]],
     [i \in DOMAIN psi[1] |->
        IF (i \div w) % 2 = 0
        THEN m[1][1]*psi[2][i] + m[1][2]*psi[1][i] + m[2][1]*psi[2][i+w] + m[2][2]*psi[1][i+w]
        ELSE m[3][1]*psi[2][i-w] + m[3][2]*psi[1][i-w] + m[4][1]*psi[2][i] + m[4][2]*psi[1][i]] >>
\* general operator m (flattened rows) on the positions ks, the first of which is the most significant
ApplyN(psi, ks, m) ==
  LET q == Len(ks)  D == Pow2(q)
      RECURSIVE row(_, _)
      row(i, j) == IF j > q THEN 0 ELSE Bit(i, ks[j]) * Pow2(q - j) + row(i, j + 1)
      RECURSIVE clear(_, _)
      clear(i, j) == IF j > q THEN i ELSE clear(i - Bit(i, ks[j]) * Pow2(ks[j]), j + 1)
      RECURSIVE set(_, _)
      set(c, j) == IF j > q THEN 0 ELSE Bit(c, q - j) * Pow2(ks[j]) + set(c, j + 1)
      off == [c \in 0..(D-1) |-> set(c, 1)]
      RECURSIVE sre(_, _, _)
      sre(b, r, c) == IF c = D THEN 0 ELSE m[r*D+c+1][1]*psi[1][b+off[c]] - m[r*D+c+1][2]*psi[2][b+off[c]] + sre(b, r, c + 1)
      RECURSIVE sim(_, _, _)
      sim(b, r, c) == IF c = D THEN 0 ELSE m[r*D+c+1][1]*psi[2][b+off[c]] + m[r*D+c+1][2]*psi[1][b+off[c]] + sim(b, r, c + 1)
  IN << [i \in DOMAIN psi[1] |-> sre(clear(i, 1), row(i, 1), 0)], [i \in DOMAIN psi[1] |-> sim(clear(i, 1), row(i, 1), 0)] >>
\* contract position k with the bra of v and drop it
Project(psi, k, v) ==
  LET w == Pow2(k)  N == Size(psi) \div 2
      a == GConj(v[1])  b == GConj(v[2])
      at(j) == (j \div w) * (2*w) + (j % w) IN
  << [j \in 0..(N-1) |-> a[1]*psi[1][at(j)] - a[2]*psi[2][at(j)] + b[1]*psi[1][at(j)+w] - b[2]*psi[2][at(j)+w]],
     [j \in 0..(N-1) |-> a[1]*psi[2][at(j)] + a[2]*psi[1][at(j)] + b[1]*psi[2][at(j)+w] + b[2]*psi[1][at(j)+w]] >>
SwapPos(psi, k, l) ==
  LET wk == Pow2(k)  wl == Pow2(l)
      src(i) == LET bk == (i \div wk) % 2  bl == (i \div wl) % 2 IN i - bk*wk - bl*wl + bl*wk + bk*wl IN
  << [i \in DOMAIN psi[1] |-> psi[1][src(i)]], [i \in DOMAIN psi[1] |-> psi[2][src(i)]] >>

RECURSIVE SumSq(_, _)
SumSq(psi, i) == IF i < 0 THEN 0 ELSE psi[1][i]*psi[1][i] + psi[2][i]*psi[2][i] + SumSq(psi, i - 1)
Norm2(psi) == SumSq(psi, Size(psi) - 1)
\* <psi|phi>
RECURSIVE Inner(_, _, _)
Inner(psi, phi, i) == IF i < 0 THEN Zr ELSE
  LET p == GMul(GConj(Amp(psi, i)), Amp(phi, i))  r == Inner(psi, phi, i - 1) IN << p[1] + r[1], p[2] + r[2] >>

\* amplitudes as a flat sequence re, im, re, im, ... with order[1] the most significant; order lists positions
Flat(psi, order) ==
  LET n == Len(order)
      RECURSIVE src(_, _)
      src(i, m) == IF m > n THEN 0 ELSE Bit(i, n - m) * Pow2(order[m]) + src(i, m + 1) IN
  [x \in 1..(2*Pow2(n)) |-> LET i == (x - 1) \div 2 IN psi[1 + ((x - 1) % 2)][src(i, 1)]]
\* the converse reading: flat amplitudes of a register of n names, first name most significant
Unflat(f, n) ==
  LET RECURSIVE rev(_, _)
      rev(i, k) == IF k = n THEN 0 ELSE Bit(i, k) * Pow2(n - 1 - k) + rev(i, k + 1) IN
  << [i \in 0..(Pow2(n)-1) |-> f[2*rev(i, 0) + 1]], [i \in 0..(Pow2(n)-1) |-> f[2*rev(i, 0) + 2]] >>

\* ---------------------------------------------------------------- ensembles
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdArr(_, _, _)
GcdArr(f, i, g) == IF i < 0 \/ g = 1 THEN g ELSE GcdArr(f, i - 1, Gcd(Abs(f[i]), g))
Content(psi) == GcdArr(psi[2], Size(psi) - 1, GcdArr(psi[1], Size(psi) - 1, 0))
DivBy(psi, g) == IF g <= 1 THEN psi ELSE
  << [i \in DOMAIN psi[1] |-> psi[1][i] \div g], [i \in DOMAIN psi[2] |-> psi[2][i] \div g] >>
IsNull(psi) == \A i \in DOMAIN psi[1] : psi[1][i] = 0 /\ psi[2][i] = 0
\* representative among the four unit multiples: the first nonzero amplitude has re > 0, im >= 0
UnitTurn(psi, u) ==
  << [i \in DOMAIN psi[1] |-> psi[1][i]*u[1] - psi[2][i]*u[2]], [i \in DOMAIN psi[1] |-> psi[1][i]*u[2] + psi[2][i]*u[1]] >>
Canon(psi) ==
  IF IsNull(psi) THEN psi ELSE
  LET j == CHOOSE i \in DOMAIN psi[1] : (psi[1][i] # 0 \/ psi[2][i] # 0) /\ \A l \in DOMAIN psi[1] : l < i => psi[1][l] = 0 /\ psi[2][l] = 0
      a == Amp(psi, j) IN
  IF a[1] > 0 /\ a[2] >= 0 THEN psi
  ELSE IF a[1] <= 0 /\ a[2] > 0 THEN UnitTurn(psi, <<0, -1>>)
  ELSE IF a[1] < 0 /\ a[2] <= 0 THEN UnitTurn(psi, <<-1, 0>>)
  ELSE UnitTurn(psi, Im1)

Sum(f, S) == LET RECURSIVE go(_)
                 go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + go(T \ {x}) IN go(S)
\* ensemble of weighted vectors, given as a set of <<tag, weight, vector>> (tags keep equal members apart)
Gather(T) ==
  LET V == {t[3] : t \in T} \ {v \in {t[3] : t \in T} : IsNull(v)} IN
  [v \in V |-> LET M == {t \in T : t[3] = v} IN Sum([t \in M |-> t[2]], M)]
MapEns(ens, Op(_)) ==
  IF Cardinality(DOMAIN ens) = 1
  THEN LET p == CHOOSE q \in DOMAIN ens : TRUE  r == Op(p) IN IF IsNull(r) THEN <<>> ELSE (r :> ens[p])
  ELSE Gather({ << p, ens[p], Canon(Op(p)) >> : p \in DOMAIN ens })
\* common content divided out of the weights and of the amplitudes
ReduceEns(ens) ==
  IF DOMAIN ens = {} THEN ens ELSE
  LET RECURSIVE gw(_)
      gw(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Gcd(ens[x], gw(S \ {x}))
      RECURSIVE ga(_)
      ga(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Gcd(Content(x), ga(S \ {x}))
      w == gw(DOMAIN ens)  g == ga(DOMAIN ens) IN
  IF w <= 1 /\ g <= 1 THEN ens ELSE
  LET T == { << p, ens[p] \div w, DivBy(p, g) >> : p \in DOMAIN ens } IN Gather(T)
Weight(ens) == LET n == [p \in DOMAIN ens |-> ens[p] * Norm2(p)] IN Sum(n, DOMAIN ens)
\* sanity of the angle encoding: periodicity, orthogonal kets of equal norm, eigenvectors of the plane's axes
GDot(v, w) == LET a == GMul(GConj(v[1]), w[1])  b == GMul(GConj(v[2]), w[2]) IN << a[1] + b[1], a[2] + b[2] >>
ASSUME AngleEncoding ==
  /\ \A k \in -2..2 : \A j \in 0..8 : U(<<k, j>>) = U(<<k, j + 8>>)
  /\ \A pl \in {"XY", "YZ", "XZ"} : \A k \in -1..1 : \A j \in 0..7 :
       LET v == GKet(pl, <<k, j>>, 0)  w == GKet(pl, <<k, j>>, 1) IN
       GDot(v, w) = Zr /\ GDot(v, v) = GDot(w, w) /\ GDot(v, v) # Zr
=============================================================================
