-------------------------------- MODULE Qasm --------------------------------
(***************************************************************************)
(* A reader of OpenQASM 3 text, restricted to what gate-level programs     *)
(* need: version, include, qubit and bit declarations (scalars and         *)
(* registers), gate calls of stdgates.inc with constant angle expressions, *)
(* measurement assignments, and conditionals on exclusive-ors of bits.     *)
(*                                                                         *)
(* Each action consumes one statement of the token sequence of a recorded  *)
(* text, checks the static rules (version first, names declared once and   *)
(* before use, arity and number of parameters as in the standard library,  *)
(* distinct operands, no use of a measured qubit, no condition on a bit    *)
(* that has not been assigned) and elaborates it into commands of the      *)
(* abstract machine (MBQC.tla), which are emitted when the text has been   *)
(* read to its end.  The elaboration defines the meaning of the standard   *)
(* gates by their defining identities (up to global phase).                *)
(*                                                                         *)
(* Tokens: [t, v, i, pn, pd, rn, rd]; t in id, int, num, sym, str; i is    *)
(* the integer at the end of an identifier (or the value of an integer);   *)
(* a non-integer literal is the number pn/pd, and rn/rd is its value in    *)
(* units of pi when read as radians (0/0: no such small fraction).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, p, m, verdict
vars == << cid, p, m, verdict >>
Case == Cases[cid]
Toks == Case.toks
NT == Len(Toks)
End == [t |-> "eof", v |-> "<eof>", i |-> -1, pn |-> 0, pd |-> 0, rn |-> 0, rd |-> 0]
Tk(k) == IF k <= NT THEN Toks[k] ELSE End
V(k) == Tk(k).v
IsId(k) == Tk(k).t = "id"
IsSym(k, s) == Tk(k).t = "sym" /\ Tk(k).v = s

GRID == 4096
Lib1 == {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "id"}
Lib1P == {"p", "phase", "u1", "rx", "ry", "rz"}
Lib2 == {"cx", "CX", "cy", "cz", "ch", "swap"}
Lib2P == {"cp", "cphase", "crx", "cry", "crz"}
Lib3 == {"ccx", "cswap"}
Lib == Lib1 \cup Lib1P \cup Lib2 \cup Lib2P \cup Lib3 \cup {"u2", "u3", "U"}
Arity(g) == IF g \in Lib2 \cup Lib2P THEN 2 ELSE IF g \in Lib3 THEN 3 ELSE 1
Params(g) == IF g \in Lib1P \cup Lib2P THEN 1 ELSE IF g = "u2" THEN 2 ELSE IF g \in {"u3", "U"} THEN 3 ELSE 0
Keywords == {"OPENQASM", "include", "qubit", "bit", "if", "measure", "pi", "else", "for", "while", "gate", "let", "reset"} \cup Lib

\* ---------------------------------------------------------------- grammar
\* A parse result carries ok, the next position, and what was read.
Bad == [ok |-> FALSE, nx |-> 0]
\* operand: name or name[int]
Operand(k) ==
  IF ~IsId(k) THEN Bad
  ELSE IF IsSym(k + 1, "[")
       THEN IF Tk(k + 2).t = "int" /\ IsSym(k + 3, "]") THEN [ok |-> TRUE, nx |-> k + 4, name |-> V(k), ix |-> Tk(k + 2).i, node |-> Tk(k + 2).i] ELSE Bad
       ELSE [ok |-> TRUE, nx |-> k + 1, name |-> V(k), ix |-> -1, node |-> Tk(k).i]
RECURSIVE OpList(_, _, _)
OpList(k, sep, acc) ==
  LET o == Operand(k) IN
  IF ~o.ok THEN Bad
  ELSE IF IsSym(o.nx, sep) THEN OpList(o.nx + 1, sep, Append(acc, o))
  ELSE [ok |-> TRUE, nx |-> o.nx, l |-> Append(acc, o)]

\* constant expressions: a fraction n/d, the power e of pi, and fl = 1 when it is a single literal given in radians
Factor(k) ==
  CASE Tk(k).t = "int" -> [ok |-> TRUE, nx |-> k + 1, n |-> Tk(k).i, d |-> 1, e |-> 0, rn |-> Tk(k).rn, rd |-> Tk(k).rd, fl |-> 1]
    [] Tk(k).t = "num" -> [ok |-> TRUE, nx |-> k + 1, n |-> Tk(k).pn, d |-> Tk(k).pd, e |-> 0, rn |-> Tk(k).rn, rd |-> Tk(k).rd, fl |-> 1]
    [] IsId(k) /\ V(k) \in {"pi", "π"} -> [ok |-> TRUE, nx |-> k + 1, n |-> 1, d |-> 1, e |-> 1, rn |-> 0, rd |-> 0, fl |-> 0]
    [] OTHER -> Bad
RECURSIVE Tail1(_)
Tail1(x) ==
  IF IsSym(x.nx, "*") \/ IsSym(x.nx, "/")
  THEN LET y == Factor(x.nx + 1) IN
       IF ~y.ok THEN Bad
       ELSE LET r == IF IsSym(x.nx, "*") THEN << x.n * y.n, x.d * y.d >> ELSE IF y.n > 0 THEN << x.n * y.d, x.d * y.n >> ELSE << 0, 0 >>
                e == IF IsSym(x.nx, "*") THEN x.e + y.e ELSE x.e - y.e
            IN Tail1([ok |-> TRUE, nx |-> y.nx, n |-> r[1], d |-> r[2], e |-> e, rn |-> 0, rd |-> 0, fl |-> 0])
  ELSE x
Expr(k) ==
  LET neg == IsSym(k, "-")
      f == Factor(IF neg THEN k + 1 ELSE k)
  IN IF ~f.ok THEN Bad
     ELSE LET x == Tail1(f) IN
          IF ~x.ok THEN Bad ELSE IF neg THEN [x EXCEPT !.n = -@, !.rn = -@] ELSE x
\* its value in units of pi, or << 0, 0 >> when it has no such value
Val(x) == IF x.fl = 1 THEN (IF x.n = 0 /\ x.d # 0 THEN << 0, 1 >> ELSE << x.rn, x.rd >>)
          ELSE IF x.n = 0 /\ x.d # 0 THEN << 0, 1 >>
          ELSE IF x.e = 1 THEN << x.n, x.d >> ELSE << 0, 0 >>
RECURSIVE ExprList(_, _)
ExprList(k, acc) ==
  LET x == Expr(k) IN
  IF ~x.ok THEN Bad
  ELSE IF IsSym(x.nx, ",") THEN ExprList(x.nx + 1, Append(acc, Val(x)))
  ELSE [ok |-> TRUE, nx |-> x.nx, l |-> Append(acc, Val(x))]

GateCall(k) ==
  IF ~IsId(k) THEN Bad
  ELSE LET a == IF IsSym(k + 1, "(") THEN ExprList(k + 2, << >>) ELSE [ok |-> TRUE, nx |-> k, l |-> << >>]
           from == IF IsSym(k + 1, "(") THEN a.nx + 1 ELSE k + 1
       IN IF ~a.ok \/ (IsSym(k + 1, "(") /\ ~IsSym(a.nx, ")")) THEN Bad
          ELSE LET o == OpList(from, ",", << >>) IN
               IF ~o.ok \/ ~IsSym(o.nx, ";") THEN Bad
               ELSE [ok |-> TRUE, nx |-> o.nx + 1, g |-> V(k), a |-> a.l, o |-> o.l]
RECURSIVE Calls(_, _)
Calls(k, acc) ==
  IF IsSym(k, "}") THEN [ok |-> TRUE, nx |-> k + 1, l |-> acc]
  ELSE LET c == GateCall(k) IN IF ~c.ok THEN Bad ELSE Calls(c.nx, Append(acc, c))

\* ----------------------------------------------------------- static rules
QReg == DOMAIN m.q
BReg == DOMAIN m.b
Within(size, ix) == (size = 0 /\ ix = -1) \/ (size > 0 /\ ix >= 0 /\ ix < size)
Key(o) == << o.name, o.ix >>
QubitOK(o) == o.name \in QReg /\ Within(m.q[o.name], o.ix)
BitOK(o) == o.name \in BReg /\ Within(m.b[o.name], o.ix)
CallVerdict(c) ==
  IF c.g \notin Lib THEN "unknown-gate"
  ELSE IF m.inc = 0 THEN "gate-before-include"
  ELSE IF Len(c.a) # Params(c.g) THEN "number-of-parameters"
  ELSE IF Len(c.o) # Arity(c.g) THEN "number-of-operands"
  ELSE IF \E i \in DOMAIN c.o : ~QubitOK(c.o[i]) THEN "undeclared-qubit"
  ELSE IF \E i, j \in DOMAIN c.o : i # j /\ Key(c.o[i]) = Key(c.o[j]) THEN "repeated-operand"
  ELSE IF \E i \in DOMAIN c.o : Key(c.o[i]) \in m.used THEN "measured-qubit"
  ELSE IF \E i \in DOMAIN c.a : c.a[i][2] = 0 THEN "angle"
  ELSE "ok"

\* ------------------------------------------------------------ elaboration
\* angle in grid units; 0 when the fraction is not on the grid (such texts are judged by their angles only)
OnGrid(v) == v[2] # 0 /\ GRID % v[2] = 0
Wrap(k) == ((k + GRID) % (2 * GRID)) - GRID
ToGrid(v) == IF OnGrid(v) THEN Wrap((v[1] % (2 * v[2])) * (GRID \div v[2])) ELSE 0
G(g, q, a) == [k |-> "G", g |-> g, q |-> q, a |-> Wrap(a)]
CRZ(a, c, t) == << G("RZ", << t >>, a \div 2), G("CNOT", << c, t >>, 0), G("RZ", << t >>, -(a \div 2)), G("CNOT", << c, t >>, 0) >>
S1(g, q) == << G(g, << q >>, 0) >>
RZ1(q, a) == << G("RZ", << q >>, a) >>
Cat(s) == FlattenSeq(s)
\* alt = 1: the reading of crz as a rotation about ZZ
Elab(c, alt) ==
  LET q == [i \in DOMAIN c.o |-> c.o[i].node]
      \* controlled rotations distinguish an angle from the angle plus a full turn
      full(i) == IF OnGrid(c.a[i]) THEN (c.a[i][1] % (4 * c.a[i][2])) * (GRID \div c.a[i][2]) ELSE 0
      a(i) == ToGrid(c.a[i])
  IN CASE c.g = "id" -> S1("I", q[1])
       [] c.g \in {"x", "y", "z", "h", "s"} -> S1([x |-> "X", y |-> "Y", z |-> "Z", h |-> "H", s |-> "S"][c.g], q[1])
       [] c.g = "sdg" -> RZ1(q[1], -(GRID \div 2))
       [] c.g = "t" -> RZ1(q[1], GRID \div 4)
       [] c.g = "tdg" -> RZ1(q[1], -(GRID \div 4))
       [] c.g = "sx" -> << G("RX", << q[1] >>, GRID \div 2) >>
       [] c.g \in {"p", "phase", "u1", "rz"} -> RZ1(q[1], a(1))
       [] c.g = "rx" -> << G("RX", << q[1] >>, a(1)) >>
       [] c.g = "ry" -> << G("RY", << q[1] >>, a(1)) >>
       [] c.g = "u2" -> Cat(<< RZ1(q[1], a(2)), << G("RY", << q[1] >>, GRID \div 2) >>, RZ1(q[1], a(1)) >>)
       [] c.g \in {"u3", "U"} -> Cat(<< RZ1(q[1], a(3)), << G("RY", << q[1] >>, a(1)) >>, RZ1(q[1], a(2)) >>)
       [] c.g \in {"cx", "CX"} -> << G("CNOT", q, 0) >>
       [] c.g = "cz" -> << G("CZ", q, 0) >>
       [] c.g = "cy" -> Cat(<< RZ1(q[2], -(GRID \div 2)), << G("CNOT", q, 0) >>, S1("S", q[2]) >>)
       [] c.g = "ch" -> Cat(<< S1("S", q[2]), S1("H", q[2]), RZ1(q[2], GRID \div 4), << G("CNOT", q, 0) >>, RZ1(q[2], -(GRID \div 4)), S1("H", q[2]), RZ1(q[2], -(GRID \div 2)) >>)
       [] c.g = "swap" -> << G("SWAP", q, 0) >>
       [] c.g = "crz" -> IF alt = 1 THEN << G("RZZ", q, a(1)) >> ELSE CRZ(full(1), q[1], q[2])
       [] c.g \in {"cp", "cphase"} -> Cat(<< CRZ(full(1), q[1], q[2]), RZ1(q[1], full(1) \div 2) >>)
       [] c.g = "crx" -> Cat(<< S1("H", q[2]), CRZ(full(1), q[1], q[2]), S1("H", q[2]) >>)
       [] c.g = "cry" -> Cat(<< << G("RX", << q[2] >>, GRID \div 2) >>, CRZ(full(1), q[1], q[2]), << G("RX", << q[2] >>, -(GRID \div 2)) >> >>)
       [] c.g = "ccx" -> << G("CCX", q, 0) >>
       [] c.g = "cswap" -> << G("CNOT", << q[3], q[2] >>, 0), G("CCX", q, 0), G("CNOT", << q[3], q[2] >>, 0) >>
\* under a condition: Pauli gates only
CondElab(c, d) ==
  LET n == c.o[1].node IN
  CASE c.g = "x" -> << [k |-> "X", n |-> n, d |-> d] >>
    [] c.g = "z" -> << [k |-> "Z", n |-> n, d |-> d] >>
    [] c.g = "y" -> << [k |-> "X", n |-> n, d |-> d], [k |-> "Z", n |-> n, d |-> d] >>
    [] OTHER -> << >>

\* --------------------------------------------------------------- machine
Init == /\ cid \in DOMAIN Cases /\ p = 1 /\ verdict = "running"
        /\ m = [ver |-> 0, inc |-> 0, q |-> << >>, b |-> << >>, used |-> {}, asg |-> {}, cmds |-> << >>, alt |-> << >>, ang |-> << >>]
Reading == verdict = "running" /\ p <= NT
Out(r) == PrintT(ToJson(r))
Fail(c) == /\ verdict' = c /\ Out([v |-> "F", id |-> Case.id, c |-> c]) /\ UNCHANGED << cid, p, m >>
To(nx, new) == p' = nx /\ m' = new /\ UNCHANGED << cid, verdict >>

Version == Reading /\ V(p) = "OPENQASM" /\
  IF m.ver # 0 \/ m.inc # 0 \/ DOMAIN m.q # {} THEN Fail("version-not-first")
  ELSE IF ~(Tk(p + 1).t \in {"int", "num"} /\ Tk(p + 1).pn = 3 * Tk(p + 1).pd /\ IsSym(p + 2, ";")) THEN Fail("version")
  ELSE To(p + 3, [m EXCEPT !.ver = 1])
Include == Reading /\ V(p) = "include" /\
  IF m.ver = 0 THEN Fail("no-version")
  ELSE IF ~(Tk(p + 1).t = "str" /\ V(p + 1) = "stdgates.inc" /\ IsSym(p + 2, ";")) THEN Fail("include")
  ELSE To(p + 3, [m EXCEPT !.inc = 1])
Declare == Reading /\ V(p) \in {"qubit", "bit"} /\
  LET reg == IsSym(p + 1, "[")
      size == IF reg THEN Tk(p + 2).i ELSE 0
      k == IF reg THEN p + 4 ELSE p + 1
      init == IF V(p) = "qubit" /\ ~reg THEN << [k |-> "N", n |-> Tk(k).i, st |-> "ZERO"] >> ELSE << >>
  IN IF m.ver = 0 THEN Fail("no-version")
     ELSE IF (reg /\ ~(Tk(p + 2).t = "int" /\ size > 0 /\ IsSym(p + 3, "]"))) \/ ~IsId(k) \/ ~IsSym(k + 1, ";") THEN Fail("declaration-syntax")
     ELSE IF V(k) \in Keywords \/ V(k) \in QReg \cup BReg THEN Fail("redeclaration")
     ELSE To(k + 2, IF V(p) = "qubit" THEN [m EXCEPT !.q = (V(k) :> size) @@ @, !.cmds = @ \o init, !.alt = @ \o init]
                    ELSE [m EXCEPT !.b = (V(k) :> size) @@ @])
IsAssign == IsId(p) /\ ~(V(p) \in Keywords) /\ Operand(p).ok /\ IsSym(Operand(p).nx, "=")
Assign == Reading /\ IsAssign /\
  LET b == Operand(p)
      q == Operand(b.nx + 2)
      c == << [k |-> "M", n |-> q.node, pl |-> "YZ", a |-> 0, s |-> << >>, t |-> << >>] >>
  IN IF V(b.nx + 1) # "measure" \/ ~q.ok \/ ~IsSym(q.nx, ";") THEN Fail("measurement-syntax")
     ELSE IF ~BitOK(b) THEN Fail("undeclared-bit")
     ELSE IF ~QubitOK(q) THEN Fail("undeclared-qubit")
     ELSE IF Key(q) \in m.used THEN Fail("measured-qubit")
     ELSE IF b.node # q.node THEN Fail("outcome-in-wrong-bit")
     ELSE IF Key(b) \in m.asg THEN Fail("outcome-overwritten")
     ELSE To(q.nx + 1, [m EXCEPT !.used = @ \cup {Key(q)}, !.asg = @ \cup {Key(b)}, !.cmds = @ \o c, !.alt = @ \o c])
Call == Reading /\ IsId(p) /\ ~IsAssign /\ (V(p) \in Lib \/ ~(V(p) \in Keywords)) /\
  LET c == GateCall(p) IN
  IF ~c.ok THEN Fail("gate-syntax")
  ELSE IF CallVerdict(c) # "ok" THEN Fail(CallVerdict(c))
  ELSE To(c.nx, [m EXCEPT !.cmds = @ \o Elab(c, 0), !.alt = @ \o Elab(c, 1), !.ang = @ \o c.a])
Conditional == Reading /\ V(p) = "if" /\
  LET cond == OpList(p + 2, "^", << >>) IN
  IF ~IsSym(p + 1, "(") \/ ~cond.ok \/ ~IsSym(cond.nx, ")") \/ ~IsSym(cond.nx + 1, "{") THEN Fail("condition-syntax")
  ELSE LET cs == Calls(cond.nx + 2, << >>)
           d == [i \in DOMAIN cond.l |-> cond.l[i].node]
       IN IF ~cs.ok THEN Fail("condition-syntax")
          ELSE IF \E i \in DOMAIN cond.l : ~BitOK(cond.l[i]) THEN Fail("undeclared-bit")
          ELSE IF \E i \in DOMAIN cond.l : Key(cond.l[i]) \notin m.asg THEN Fail("condition-on-unassigned-bit")
          ELSE IF \E i \in DOMAIN cs.l : CallVerdict(cs.l[i]) # "ok" THEN Fail("conditional-gate")
          ELSE IF \E i \in DOMAIN cs.l : cs.l[i].g \notin {"x", "y", "z", "id"} THEN Fail("conditional-gate")
          ELSE LET new == FlattenSeq([i \in DOMAIN cs.l |-> CondElab(cs.l[i], d)]) IN
               To(cs.nx, [m EXCEPT !.cmds = @ \o new, !.alt = @ \o new])
Other == Reading /\ ~IsAssign /\ ~(V(p) \in {"OPENQASM", "include", "qubit", "bit", "if"}) /\ ~(IsId(p) /\ (V(p) \in Lib \/ ~(V(p) \in Keywords))) /\ Fail("statement-syntax")

\* every angle written in the text against the angles of the object (units of pi, exact fractions)
SameAngle(x, y) == x[1] * y[2] = y[1] * x[2]
AngleVerdict ==
  IF Case.ang = << >> THEN "ok"
  ELSE IF Len(Case.ang) # Len(m.ang) THEN "number-of-angles"
  ELSE IF \E i \in DOMAIN m.ang : ~SameAngle(m.ang[i], Case.ang[i]) THEN "angle-value"
  ELSE "ok"
Finish ==
  /\ verdict = "running" /\ p > NT
  /\ verdict' = IF m.ver = 0 THEN "no-version" ELSE AngleVerdict
  /\ IF verdict' = "ok"
     THEN /\ Out([v |-> "K", id |-> Case.id])
          /\ (Case.emit = 1 => Out([v |-> "G", id |-> Case.id, cmds |-> m.cmds, alt |-> m.alt]))
     ELSE Out([v |-> "F", id |-> Case.id, c |-> verdict'])
  /\ UNCHANGED << cid, p, m >>

Next == Version \/ Include \/ Declare \/ Assign \/ Call \/ Conditional \/ Other \/ Finish
Spec == Init /\ [][Next]_vars
\* a text is read monotonically and nothing is measured twice
Sane == /\ p <= NT + 1
        /\ Cardinality(m.used) = Cardinality(m.asg)
=============================================================================
