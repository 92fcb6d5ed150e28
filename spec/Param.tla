------------------------------- MODULE Param -------------------------------
(***************************************************************************)
(* Symbolic parameters.  An expression denotes an affine function of at    *)
(* most one parameter, [a, x, b, i] = a*x + b + i*sqrt(-1), with numbers   *)
(* in units of 1/Unit (x = "" and a = 0 for a constant).  An object        *)
(* (circuit, pattern, open graph, flow, corrections, matrix, or a single   *)
(* expression) is a sequence of items <<skeleton, expression>>; the        *)
(* skeleton is everything that is not an angle.                            *)
(*                                                                         *)
(* A history computes expressions, substitutes parameters in objects (one  *)
(* or several at a time, into a new object or in place) and applies the    *)
(* transformations of the library.  The machine keeps the value of every   *)
(* named object; a step is accepted if the recorded result is the one the  *)
(* machine computes.  Transformations are opaque, but natural: they must   *)
(* commute with substitution ("square").                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Unit == 1024
Turn == 2 * Unit            \* angles are in units of pi
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, step, objs, verdict
vars == << cid, step, objs, verdict >>
Case == Cases[cid]
Steps == Case.steps
Op == Steps[step]

Const(b) == << 0, "", b, 0 >>
IsConst(e) == e[1] = 0
Norm(e) == IF e[1] = 0 THEN << 0, "", e[3], e[4] >> ELSE e
Mul(e, k) == Norm(<< (e[1] * k) \div Unit, e[2], (e[3] * k) \div Unit, (e[4] * k) \div Unit >>)
Add(e, f) == Norm(<< e[1] + f[1], IF IsConst(e) THEN f[2] ELSE e[2], e[3] + f[3], e[4] + f[4] >>)
Neg(e) == Mul(e, 0 - Unit)
\* sums of functions of different parameters are outside the domain
Affine(e, f) == IsConst(e) \/ IsConst(f) \/ e[2] = f[2]
Sub1(e, m) ==               \* all parameters at once
  IF IsConst(e) \/ e[2] \notin DOMAIN m THEN e
  ELSE LET v == m[e[2]] IN Add(Mul(v, e[1]), << 0, "", e[3], e[4] >>)
Subst(obj, m) == [k \in DOMAIN obj |-> << obj[k][1], Sub1(obj[k][2], m) >>]
Mod(obj) == [k \in DOMAIN obj |-> << obj[k][1], [obj[k][2] EXCEPT ![3] = @ % Turn] >>]
Same(o, p) == IF Case.angles = 1 THEN Mod(o) = Mod(p) ELSE o = p
Pairs(s) == [x \in { s[k][1] : k \in DOMAIN s } |-> s[CHOOSE k \in DOMAIN s : s[k][1] = x][2]]
Val(n) == objs[n][1][2]     \* the expression of a single-item object
Single(e) == << << "", e >> >>

Reject(c) == verdict' = "rejected" /\ UNCHANGED << cid, step, objs >> /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c, step |-> step, op |-> Op.op]))
Bind(n, o) == objs' = (n :> o) @@ objs /\ step' = step + 1 /\ UNCHANGED << cid, verdict >>
Run == verdict = "run" /\ step <= Len(Steps)
Is(k) == Run /\ Op.op = k

\* an expression without its parameter is a number
New == Is("new") /\ IF \E k \in DOMAIN Op.obs : Op.obs[k][2] # Norm(Op.obs[k][2]) THEN Reject("unreduced") ELSE Bind(Op.d, Op.obs)
\* ---- arithmetic
Arith ==
  /\ Run /\ Op.op \in {"add", "sub"}
  /\ LET e == Val(Op.l)  f == IF Op.op = "add" THEN Val(Op.r) ELSE Neg(Val(Op.r)) IN
     IF Op.refused = 1 THEN (IF Affine(e, f) THEN Reject("refused") ELSE Bind(Op.d, Single(Const(0))))
     ELSE IF ~Affine(e, f) THEN Reject("not-affine")
     ELSE IF Op.obs # Single(Add(e, f)) THEN Reject("value") ELSE Bind(Op.d, Op.obs)
Scale == /\ Run /\ Op.op \in {"mul", "div", "neg"}
         /\ LET e == Val(Op.l)
                want == CASE Op.op = "mul" -> Mul(e, Op.k) [] Op.op = "neg" -> Neg(e) [] Op.op = "div" -> Mul(e, (Unit * Unit) \div Op.k) IN
            IF Op.obs # Single(want) THEN Reject("value") ELSE Bind(Op.d, Op.obs)
Equal == /\ Is("eq")
         /\ IF (Op.obs = 1) # (Val(Op.l) = Val(Op.r)) THEN Reject("equality") ELSE step' = step + 1 /\ UNCHANGED << cid, objs, verdict >>
\* ---- substitution: d is the new object; s is the substituted one, observed again afterwards
Replace ==
  /\ Is("subst")
  /\ LET want == Subst(objs[Op.s], Pairs(Op.map)) IN
     IF Op.obs # want THEN Reject(IF Same(Op.obs, want) THEN "full-turn" ELSE "substitution")
     ELSE IF Op.copy = 1 /\ Op.src # objs[Op.s] THEN Reject("original-changed")
     ELSE IF Op.copy = 0 /\ (Op.src # want \/ Op.self = 0) THEN Reject("in-place")
     ELSE /\ objs' = (Op.d :> want) @@ (Op.s :> (IF Op.copy = 1 THEN objs[Op.s] ELSE want)) @@ objs
          /\ step' = step + 1 /\ UNCHANGED << cid, verdict >>
\* an object reports that it is parameterised exactly if some parameter remains
Report == /\ Is("param")
          /\ IF (Op.obs = 1) # (\E k \in DOMAIN objs[Op.s] : ~IsConst(objs[Op.s][k][2])) THEN Reject("is-parameterized")
             ELSE step' = step + 1 /\ UNCHANGED << cid, objs, verdict >>
\* q = F(p) and q2 = F(p2), where p2 is p after the substitution: q2 must be q after the substitution
Square == /\ Is("square")
          /\ LET m == Pairs(Op.map) IN
             IF ~Same(Subst(objs[Op.p], m), objs[Op.p2]) THEN Reject("bad-square")
             ELSE IF ~Same(Subst(objs[Op.q], m), objs[Op.q2]) THEN Reject("not-natural")
             ELSE step' = step + 1 /\ UNCHANGED << cid, objs, verdict >>
Accept == /\ verdict = "run" /\ step = Len(Steps) + 1
          /\ verdict' = "accepted" /\ PrintT(ToJson([v |-> "K", id |-> Case.id])) /\ UNCHANGED << cid, step, objs >>
Init == cid \in DOMAIN Cases /\ step = 1 /\ objs = <<>> /\ verdict = "run"
Next == New \/ Arith \/ Scale \/ Equal \/ Replace \/ Report \/ Square \/ Accept
Spec == Init /\ [][Next]_vars
\* every expression the machine holds is in normal form
Normal == \A n \in DOMAIN objs : \A k \in DOMAIN objs[n] : objs[n][k][2] = Norm(objs[n][k][2])
=============================================================================
