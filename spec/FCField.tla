------------------------------- MODULE FCField -------------------------------
(***************************************************************************)
(* Exact complex arithmetic for quantum amplitudes inside TLC.             *)
(*                                                                         *)
(* Amplitudes of every program considered here live in the cyclotomic ring *)
(* R = Z[zeta_8192, 1/2].  The Mersenne prime P = 8191 satisfies           *)
(* P = -1 (mod 8192), so the residue field of R above P is F_{P^2} =       *)
(* F_P[i] and COMPLEX CONJUGATION IS THE FROBENIUS MAP: the reduction      *)
(* R -> F_P[i] is a ring homomorphism that commutes with conjugation.      *)
(* Hence every identity between amplitudes, inner products or              *)
(* probabilities that holds in R holds here (no false alarm is possible),  *)
(* and an identity that fails in R survives the reduction only if a        *)
(* nonzero algebraic integer happens to be divisible by P (chance ~ P^-2   *)
(* per compared entry).  All intermediate values stay below 2^27, inside   *)
(* TLC's 32-bit integers.                                                  *)
(*                                                                         *)
(* Angles are integers k standing for k*Pi/4096, k even (so that the half  *)
(* angle is on the grid as well).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 8191
FullTurn == 8192          \* 2*Pi on the angle grid
G == <<5781, 6746>>       \* primitive 8192-th root of unity of norm 1: "exp(i*Pi/4096)"
IS2 == 64                 \* 1/sqrt(2)
HALF == 4096              \* 1/2

CMul(a, b) == << (a[1]*b[1] - a[2]*b[2]) % P, (a[1]*b[2] + a[2]*b[1]) % P >>
CAdd(a, b) == << (a[1] + b[1]) % P, (a[2] + b[2]) % P >>
CSub(a, b) == << (a[1] - b[1]) % P, (a[2] - b[2]) % P >>
CNeg(a)    == << (-a[1]) % P, (-a[2]) % P >>
CConj(a)   == << a[1], (-a[2]) % P >>
CNorm(a)   == (a[1]*a[1] + a[2]*a[2]) % P
CScale(r, a) == << (r*a[1]) % P, (r*a[2]) % P >>
CZero == <<0, 0>>
COne  == <<1, 0>>
CI    == <<0, 1>>
CIsZero(a) == a[1] = 0 /\ a[2] = 0

RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN COne
              ELSE IF n % 2 = 1 THEN CMul(a, CPow(CMul(a, a), n \div 2))
              ELSE CPow(CMul(a, a), n \div 2)

\* Table of all 8192 roots of unity, built by doubling.
RECURSIVE BuildTab(_, _)
BuildTab(tab, n) ==
  IF n = FullTurn THEN tab
  ELSE LET h == CPow(G, n)
       IN BuildTab(tab \o [j \in 1..n |-> CMul(h, tab[j])], 2*n)
RootTab == BuildTab(<<COne>>, 1)

Cis(k)  == RootTab[(k % FullTurn) + 1]           \* exp(i*k*Pi/4096)
Cos(k)  == Cis(k)[1]
Sin(k)  == Cis(k)[2]

\* 2^n for small n (memory layout and norm factors)
Pow2Tab == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,1048576>>
Pow2(n) == Pow2Tab[n + 1]
RECURSIVE FPow2(_)
FPow2(n) == IF n = 0 THEN 1 ELSE (2 * FPow2(n - 1)) % P

ASSUME FieldSane ==
  /\ CPow(G, 2048) = CI
  /\ CPow(G, 4096) = <<P - 1, 0>>
  /\ CNorm(G) = 1
  /\ (IS2 * IS2 * 2) % P = 1
  /\ Cos(1024) = IS2 /\ Sin(1024) = IS2
  /\ (2 * HALF) % P = 1
=============================================================================
