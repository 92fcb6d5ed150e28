--------------------------------- MODULE Ket ---------------------------------
(***************************************************************************)
(* A reader of the renderings (ASCII, unicode, LaTeX) of states, density   *)
(* matrices and complex numbers.                                           *)
(*                                                                         *)
(* The machine consumes the tokens of a recorded text one term of a ket    *)
(* sum, or one entry of a matrix, at a time, and demands that it denotes   *)
(* the amplitude (entry) of the object that was rendered.  Numbers built   *)
(* from integers, square roots, i and exp(i*pi*n/d) are compared EXACTLY:  *)
(* they are read in F_{P^2}, the image of a ring homomorphism which is     *)
(* fixed once for all roots of unity (Zeta) and square roots (Rt, given by *)
(* Gauss sums wherever they are cyclotomic).  Rounded decimals are compared*)
(* with the value scaled by 10^7, within the requested precision.          *)
(*                                                                         *)
(* A coefficient applies to the ket it precedes: a sum must be in          *)
(* parentheses (a "+" outside of them separates two terms).                *)
(*                                                                         *)
(* Tokens: [t, v, i, s, b]; t in int, num, id, sym, sp, nl, ket.           *)
(* Case: [id, mode in state / matrix / value, fmt, toks, lsb, want,        *)
(* prec, elts].  An element is [b, amp, ph]; amp (and ph, the amplitude    *)
(* over the common modulus Case.mod when there is one: Case.uni = 1) is    *)
(* [ex, parts, re, im], parts a sum of << num, den, rad, an, ad >> =       *)
(* num/den * sqrt(rad) * exp(i*pi*an/ad) when ex = 1.                      *)
(***************************************************************************)
EXTENDS FCField, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pos, done, fac, verdict
vars == << cid, pos, done, fac, verdict >>
Case == Cases[cid]
Toks == Case.toks
NT == Len(Toks)
End == [t |-> "eof", v |-> "<eof>", i |-> -1, s |-> 0, b |-> << >>]
Tk(p) == IF p <= NT THEN Toks[p] ELSE End
IsSym(p, s) == Tk(p).t = "sym" /\ Tk(p).v = s
IsId(p, s) == Tk(p).t = "id" /\ Tk(p).v = s
IsInt(p) == Tk(p).t = "int"

\* --------------------------------------------------------- the homomorphism
N2 == 67092480                    \* P^2 - 1 = 2^14 * 3^2 * 5 * 7 * 13
Prim == << 2, 8 >>                \* generator of the multiplicative group
CisOK(d) == d > 0 /\ d <= 1000000 /\ N2 % (2 * d) = 0
Zeta(n, d) == CPow(Prim, (N2 \div (2 * d)) * (n % (2 * d)))        \* exp(i*pi*n/d)
Leg(a, q) == IF \E x \in 1..(q - 1) : (x * x) % q = a % q THEN 1 ELSE -1
Gauss(q) == FoldSet(LAMBDA a, acc : CAdd(acc, CScale(Leg(a, q), Zeta(2 * a, q))), CZero, 1..(q - 1))
Roots == << << 2, CAdd(Zeta(1, 4), Zeta(-1, 4)) >>, << 3, CAdd(Zeta(1, 6), Zeta(-1, 6)) >>, << 5, Gauss(5) >>, << 7, CMul(Zeta(-1, 2), Gauss(7)) >>,
            << 11, << 1431, 0 >> >>, << 13, Gauss(13) >>, << 17, << 0, 1509 >> >>, << 19, << 4017, 0 >> >>, << 23, << 0, 2839 >> >>,
            << 29, << 3313, 0 >> >>, << 31, << 0, 1134 >> >> >>
Divs(q) == { j \in DOMAIN Roots : q % Roots[j][1] = 0 }
RECURSIVE RtOK(_)
RtOK(q) == q = 1 \/ (q > 1 /\ Divs(q) # {} /\ RtOK(q \div Roots[Min(Divs(q))][1]))
RECURSIVE Rt(_)
Rt(q) == IF q = 1 THEN COne ELSE LET j == Min(Divs(q)) IN CMul(Roots[j][2], Rt(q \div Roots[j][1]))
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 1 THEN (x * IPow((x * x) % P, n \div 2)) % P ELSE IPow((x * x) % P, n \div 2)
Inv(n) == IPow(n % P, P - 2)
ASSUME \A j \in DOMAIN Roots : CMul(Roots[j][2], Roots[j][2]) = << Roots[j][1], 0 >>
ASSUME \A q \in {2, 3, 5, 7, 13} : CPow(Prim, N2 \div q) # COne
ASSUME CPow(Prim, N2) = COne /\ Zeta(1, 1) = << P - 1, 0 >>

PartVal(t) == CScale((t[1] % P) * Inv(t[2]) % P, CMul(Rt(t[3]), Zeta(t[4], t[5])))
Exact(e) == FoldSeq(LAMBDA t, acc : CAdd(acc, PartVal(t)), CZero, e.parts)

\* ---------------------------------------------------------------- numbers
\* [ok, nx, ex, f, nk, re, im] : exact value f, and/or scaled decimal value (nk)
SC == 10000000
Bad == [ok |-> FALSE, nx |-> 0]
One(p) == [ok |-> TRUE, nx |-> p, ex |-> TRUE, f |-> COne, nk |-> TRUE, re |-> SC, im |-> 0, n |-> 0]
Abs(x) == IF x < 0 THEN -x ELSE x
IsPi(p) == Tk(p).t = "id" /\ Tk(p).v \in {"pi", "π", "\\pi"}
IsTimes(p) == Tk(p).t = "sym" /\ Tk(p).v \in {"*", "·", "×"}
\* [ok, nx, n, d]
NPi(p) == IF IsPi(p) THEN [ok |-> TRUE, nx |-> p + 1, n |-> 1, d |-> 1]
          ELSE IF IsInt(p) /\ IsPi(p + 1) THEN [ok |-> TRUE, nx |-> p + 2, n |-> Tk(p).i, d |-> 1]
          ELSE IF IsInt(p) /\ IsTimes(p + 1) /\ IsPi(p + 2) THEN [ok |-> TRUE, nx |-> p + 3, n |-> Tk(p).i, d |-> 1]
          ELSE Bad
Angle(p) ==
  IF IsId(p, "\\frac")
  THEN LET a == NPi(p + 2) IN
       IF IsSym(p + 1, "{") /\ a.ok /\ IsSym(a.nx, "}") /\ IsSym(a.nx + 1, "{") /\ IsInt(a.nx + 2) /\ IsSym(a.nx + 3, "}")
       THEN [a EXCEPT !.nx = @ + 4, !.d = Tk(a.nx + 2).i] ELSE Bad
  ELSE LET a == NPi(p) IN IF a.ok /\ IsSym(a.nx, "/") THEN (IF IsInt(a.nx + 1) THEN [a EXCEPT !.nx = @ + 2, !.d = Tk(a.nx + 1).i] ELSE Bad) ELSE a
\* e ^ ( [-] i [*] angle )
Exp(p) ==
  LET q == p + 3
      neg == IsSym(q, "-")
      u == IF neg THEN q + 1 ELSE q
      at == IF IsTimes(u + 1) \/ Tk(u + 1).t = "sp" THEN u + 2 ELSE u + 1
      a == Angle(at)
  IN IF IsId(p, "e") /\ IsSym(p + 1, "^") /\ (IsSym(p + 2, "(") \/ IsSym(p + 2, "{")) /\ IsId(u, "i") /\ a.ok /\ CisOK(a.d)
        /\ IsSym(a.nx, IF IsSym(p + 2, "(") THEN ")" ELSE "}")
     THEN [ok |-> TRUE, nx |-> a.nx + 1, f |-> Zeta(IF neg THEN -a.n ELSE a.n, a.d)]
     ELSE Bad
Sq(p) ==
  IF IsId(p, "√") /\ IsInt(p + 1) /\ RtOK(Tk(p + 1).i) THEN [ok |-> TRUE, nx |-> p + 2, f |-> Rt(Tk(p + 1).i)]
  ELSE IF ((IsId(p, "sqrt") /\ IsSym(p + 1, "(") /\ IsInt(p + 2) /\ IsSym(p + 3, ")")) \/ (IsId(p, "\\sqrt") /\ IsSym(p + 1, "{") /\ IsInt(p + 2) /\ IsSym(p + 3, "}")))
          /\ RtOK(Tk(p + 2).i)
       THEN [ok |-> TRUE, nx |-> p + 4, f |-> Rt(Tk(p + 2).i)]
  ELSE Bad
Starts(p) == IsInt(p) \/ (Tk(p).t = "id" /\ Tk(p).v \in {"i", "e", "√", "sqrt", "\\sqrt", "\\frac"})
RECURSIVE Fac(_)
Times(a, x, nx) == Fac([a EXCEPT !.f = CMul(@, x), !.nx = nx, !.n = @ + 1, !.nk = FALSE])
\* product of factors, divisions by integers included; a decimal literal takes at most a following i
Fac(a) ==
  LET p == a.nx IN
  CASE Tk(p).t = "num" /\ a.n = 0 ->
         IF IsId(p + 1, "i") THEN [a EXCEPT !.ex = FALSE, !.re = 0, !.im = Tk(p).s, !.nx = p + 2, !.n = 1]
         ELSE [a EXCEPT !.ex = FALSE, !.re = Tk(p).s, !.nx = p + 1, !.n = 1]
    [] IsInt(p) /\ a.n = 0 /\ Tk(p).i <= 200 ->
         IF IsId(p + 1, "i") THEN Fac([a EXCEPT !.f = CMul(Zeta(1, 2), << Tk(p).i, 0 >>), !.re = 0, !.im = Tk(p).i * SC, !.nx = p + 2, !.n = 2])
         ELSE Fac([a EXCEPT !.f = << Tk(p).i, 0 >>, !.re = Tk(p).i * SC, !.nx = p + 1, !.n = 1])
    [] IsInt(p) -> IF a.n > 0 /\ ~IsTimes(p - 1) THEN Bad ELSE Times(a, << Tk(p).i % P, 0 >>, p + 1)
    [] IsId(p, "i") /\ a.n = 0 -> Fac([a EXCEPT !.f = Zeta(1, 2), !.re = 0, !.im = SC, !.nx = p + 1, !.n = 1])
    [] IsId(p, "i") -> Times(a, Zeta(1, 2), p + 1)
    [] IsId(p, "e") -> LET r == Exp(p) IN IF r.ok THEN Times(a, r.f, r.nx) ELSE Bad
    [] Tk(p).t = "id" /\ Tk(p).v \in {"√", "sqrt", "\\sqrt"} -> LET r == Sq(p) IN IF r.ok THEN Times(a, r.f, r.nx) ELSE Bad
    [] IsId(p, "\\frac") ->
         IF ~IsSym(p + 1, "{") THEN Bad
         ELSE LET r == Fac(One(p + 2)) IN
              IF r.ok /\ r.ex /\ r.n > 0 /\ IsSym(r.nx, "}") /\ IsSym(r.nx + 1, "{") /\ IsInt(r.nx + 2) /\ Tk(r.nx + 2).i % P # 0 /\ IsSym(r.nx + 3, "}")
              THEN Times(a, CScale(Inv(Tk(r.nx + 2).i), r.f), r.nx + 4) ELSE Bad
    [] IsSym(p, "/") /\ a.n > 0 /\ a.ex -> IF IsInt(p + 1) /\ Tk(p + 1).i % P # 0 THEN Times(a, << Inv(Tk(p + 1).i), 0 >>, p + 2) ELSE Bad
    [] a.n > 0 /\ (IsTimes(p) \/ (Tk(p).t = "sp" /\ Tk(p).i = 1)) /\ Starts(p + 1) /\ (IsTimes(p) \/ Case.fmt = "latex") -> Fac([a EXCEPT !.nx = p + 1])
    [] OTHER -> a
Prod(p) == LET r == Fac(One(p)) IN IF r.ok /\ r.n > 0 THEN r ELSE Bad
Minus(r) == [r EXCEPT !.f = CNeg(@), !.re = -@, !.im = -@]
Add(a, b) == [b EXCEPT !.ex = a.ex /\ b.ex, !.f = CAdd(a.f, b.f), !.nk = a.nk /\ b.nk, !.re = a.re + b.re, !.im = a.im + b.im]
Usable(r) == r.ok /\ (r.ex \/ r.nk)
Signed(p) == IF IsSym(p, "-") THEN LET r == Prod(p + 1) IN IF r.ok THEN Minus(r) ELSE Bad ELSE Prod(p)
Blank(p) == IF Tk(p).t = "sp" /\ Tk(p).i = 1 THEN p + 1 ELSE p
RECURSIVE More(_)
\* a sum: terms separated by + or -
More(a) ==
  LET q == Blank(a.nx) IN
  IF IsSym(q, "+") \/ IsSym(q, "-")
  THEN LET r == Prod(Blank(q + 1)) IN IF ~r.ok THEN Bad ELSE LET s == Add(a, IF IsSym(q, "-") THEN Minus(r) ELSE r) IN IF Usable(s) THEN More(s) ELSE Bad
  ELSE a
Sum(p) == LET r == Signed(p) IN IF r.ok THEN More(r) ELSE Bad

\* --------------------------------------------------------------- judgement
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Near(x, y) == Abs(x - y) <= Abs(y) \div (2 * Pow10(Case.prec - 1)) + 2
\* v, a number read, is e; an integer may be a rounded decimal
Is(v, e) == \/ v.ex /\ e.ex = 1 /\ v.f = Exact(e)
            \/ v.nk /\ (v.ex => Case.want = 0) /\ Near(v.re, e.re) /\ Near(v.im, e.im)
Clear(v) == Case.want = 0 \/ v.ex

Elts == Case.elts
Label(e) == IF Case.lsb = 1 THEN Reverse(e.b) ELSE e.b

Init == /\ cid \in DOMAIN Cases /\ pos = 1 /\ done = {} /\ fac = One(1) /\ verdict = "run"
Out(c) == PrintT(ToJson(IF c = "ok" THEN [v |-> "K", id |-> Case.id] ELSE [v |-> "F", id |-> Case.id, c |-> c]))
Finish(c) == verdict' = c /\ Out(c) /\ UNCHANGED << cid, pos, done, fac >>

\* ------------------------------------------------------------ sums of kets
InSum == fac.n > 0
\* the common factor and its parenthesis
Factor ==
  /\ Case.mode = "state" /\ verdict = "run" /\ pos = 1 /\ ~InSum
  /\ \E r \in {Prod(1)} : r.ok /\ Usable(r) /\ IsSym(r.nx, "(")
       /\ fac' = r /\ pos' = r.nx + 1 /\ UNCHANGED << cid, done, verdict >>
Factored == \E r \in {Prod(1)} : r.ok /\ Usable(r) /\ IsSym(r.nx, "(")
\* what joins terms: nothing or a minus at first, then + or -
Joint == LET p == IF done = {} THEN pos ELSE Blank(pos)
             sep == IsSym(p, "-") \/ (done # {} /\ IsSym(p, "+"))
         IN [ok |-> sep \/ done = {}, neg |-> IsSym(p, "-"), nx |-> IF sep /\ done # {} THEN Blank(p + 1) ELSE IF sep THEN p + 1 ELSE p]
\* coefficient: a product, a sum in parentheses, or none
Coef(p) ==
  IF Tk(p).t = "ket" THEN One(p)
  ELSE IF IsSym(p, "(") THEN LET r == Sum(p + 1) IN IF r.ok /\ IsSym(r.nx, ")") THEN [r EXCEPT !.nx = @ + 1] ELSE Bad
  ELSE Prod(p)
Worth(v, j) ==
  LET e == Elts[j] IN
  IF ~InSum THEN IF ~Is(v, e.amp) THEN "wrong-amplitude" ELSE IF Clear(v) THEN "ok" ELSE "rounded"
  ELSE IF fac.ex /\ v.ex THEN (IF e.amp.ex = 1 /\ CMul(fac.f, v.f) = Exact(e.amp) THEN "ok" ELSE "wrong-amplitude")
  ELSE IF Case.uni = 0 THEN "factor-without-common-modulus"
  ELSE IF ~Is(fac, Case.mod) \/ ~Is(v, e.ph) THEN "wrong-amplitude"
  ELSE IF Clear(v) /\ Clear(fac) THEN "ok" ELSE "rounded"
Term ==
  /\ Case.mode = "state" /\ verdict = "run" /\ (pos > 1 \/ ~Factored)
  /\ pos <= NT /\ ~(InSum /\ IsSym(pos, ")"))
  /\ \E j \in {Joint} : \E r \in {IF j.ok THEN Coef(j.nx) ELSE Bad} :
       IF ~r.ok THEN Finish("unreadable")
       ELSE IF Tk(r.nx).t # "ket" THEN Finish("sum-without-parentheses")
       ELSE \E v \in {IF j.neg THEN Minus(r) ELSE r} : \E which \in {{ x \in DOMAIN Elts : Label(Elts[x]) = Tk(r.nx).b }} :
            IF which = {} \/ which \subseteq done THEN Finish("wrong-basis-state")
            ELSE \E c \in {Worth(v, CHOOSE x \in which : TRUE)} :
                 IF c # "ok" THEN Finish(c) ELSE pos' = r.nx + 1 /\ done' = done \cup which /\ UNCHANGED << cid, fac, verdict >>
EndState ==
  /\ Case.mode = "state" /\ verdict = "run" /\ (pos > 1 \/ ~Factored)
  /\ (pos > NT \/ (InSum /\ IsSym(pos, ")")))
  /\ Finish(IF InSum /\ (~IsSym(pos, ")") \/ pos # NT) THEN "unreadable" ELSE IF done # DOMAIN Elts THEN "missing-basis-state" ELSE "ok")

\* ---------------------------------------------------------------- matrices
Wd == Case.width
Open(p) == IF Case.fmt = "latex" THEN IF IsId(p, "\\begin") /\ IsSym(p + 1, "{") /\ IsId(p + 2, "pmatrix") /\ IsSym(p + 3, "}") THEN p + 4 ELSE 0
           ELSE IF IsSym(p, "[") /\ Tk(p + 1).t = "sp" THEN p + 2 ELSE 0
\* after entry number n of width Wd: next entry or end
Gap(p, n) ==
  IF Case.fmt = "latex"
  THEN IF n = Wd * Wd THEN IF IsId(p, "\\end") /\ IsSym(p + 1, "{") /\ IsId(p + 2, "pmatrix") /\ IsSym(p + 3, "}") THEN p + 4 ELSE 0
       ELSE IF n % Wd = 0 THEN IF Tk(p).t = "sp" /\ IsSym(p + 1, "\\\\") /\ Tk(p + 2).t = "sp" THEN p + 3 ELSE 0
       ELSE IF Tk(p).t = "sp" /\ IsSym(p + 1, "&") /\ Tk(p + 2).t = "sp" THEN p + 3 ELSE 0
  ELSE IF n % Wd = 0
       THEN IF Tk(p).t = "sp" /\ IsSym(p + 1, "]") THEN (IF n = Wd * Wd THEN p + 2 ELSE IF Tk(p + 2).t = "nl" THEN Open(p + 3) ELSE 0) ELSE 0
       ELSE IF Tk(p).t = "sp" /\ Tk(p).i >= 2 THEN p + 1 ELSE 0
Entry ==
  /\ Case.mode = "matrix" /\ verdict = "run" /\ Cardinality(done) < Wd * Wd
  /\ \E n \in {Cardinality(done) + 1} : \E p \in {IF n = 1 THEN Open(1) ELSE pos} :
       IF p = 0 THEN Finish("unreadable")
       ELSE \E r \in {Sum(p)} :
            IF ~r.ok \/ Gap(r.nx, n) = 0 THEN Finish("unreadable")
            ELSE IF ~Is(r, Elts[n].amp) THEN Finish("wrong-entry")
            ELSE IF ~Clear(r) THEN Finish("rounded")
            ELSE pos' = Gap(r.nx, n) /\ done' = done \cup {n} /\ UNCHANGED << cid, fac, verdict >>
EndMatrix == /\ Case.mode = "matrix" /\ verdict = "run" /\ Cardinality(done) = Wd * Wd
             /\ Finish(IF pos = NT + 1 THEN "ok" ELSE "unreadable")

\* ----------------------------------------------------------------- numbers
Value ==
  /\ Case.mode = "value" /\ verdict = "run"
  /\ \E r \in {Sum(1)} : Finish(IF ~r.ok \/ r.nx # NT + 1 THEN "unreadable" ELSE IF ~Is(r, Elts[1].amp) THEN "wrong-value" ELSE IF Clear(r) THEN "ok" ELSE "rounded")

Next == Factor \/ Term \/ EndState \/ Entry \/ EndMatrix \/ Value
Spec == Init /\ [][Next]_vars
TypeOK == /\ pos \in 1..(NT + 1) /\ verdict \in STRING /\ done \subseteq 1..(IF Case.mode = "state" THEN Len(Elts) ELSE Wd * Wd)
=============================================================================
