-------------------------------- MODULE Repr --------------------------------
(***************************************************************************)
(* What a programmatic representation denotes.  The recorded text has been *)
(* parsed into an expression tree (by Python's own grammar); this machine  *)
(* evaluates the tree, one element of a pattern or circuit per step: it    *)
(* applies the constructors to their positional and named arguments with   *)
(* the documented defaults, and demands that each element denotes the      *)
(* element of the object that was represented.  pi denotes the angle pi,   *)
(* which graphix writes 1 (angles are in units of pi).                     *)
(*                                                                         *)
(* Trees: [k |-> "num", n, d], [k |-> "name", v] (dotted), [k |-> "call",  *)
(* f, a, kw], [k |-> "seq", t in list/tuple/set, a], [k |-> "neg", a],     *)
(* [k |-> "bin", op, a], [k |-> "imag", n].                                *)
(* The case also carries what the real constructors made of the text       *)
(* (Case.again), which must be the same elements again.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, verdict
vars == << cid, i, verdict >>
Case == Cases[cid]
Out(c) == PrintT(ToJson(IF c = "ok" THEN [v |-> "K", id |-> Case.id] ELSE [v |-> "F", id |-> Case.id, c |-> c]))

\* ------------------------------------------------------------ signatures
Sig == [N |-> << "node", "state" >>, E |-> << "nodes" >>, M |-> << "node", "measurement", "s_domain", "t_domain" >>, X |-> << "node", "domain" >>,
        Z |-> << "node", "domain" >>, S |-> << "node", "domain" >>, C |-> << "node", "clifford" >>, T |-> << >>]
SigI == [CCX |-> << "target", "controls" >>, RZZ |-> << "target", "control", "angle" >>, CNOT |-> << "target", "control" >>, SWAP |-> << "targets" >>,
         CZ |-> << "targets" >>, H |-> << "target" >>, S |-> << "target" >>, X |-> << "target" >>, Y |-> << "target" >>, Z |-> << "target" >>, I |-> << "target" >>,
         M |-> << "target", "axis" >>, J |-> << "target", "angle" >>, RX |-> << "target", "angle" >>, RY |-> << "target", "angle" >>, RZ |-> << "target", "angle" >>]
Undef == [k |-> "undef"]
\* argument called nm of call c with signature sg
KwIdx(c, nm) == { j \in DOMAIN c.kw : c.kw[j].n = nm }
Arg(c, sg, nm) ==
  LET pos == { j \in DOMAIN sg : sg[j] = nm } IN
  IF KwIdx(c, nm) # {} THEN c.kw[CHOOSE j \in KwIdx(c, nm) : TRUE].v
  ELSE IF \E j \in pos : j <= Len(c.a) THEN c.a[CHOOSE j \in pos : TRUE] ELSE Undef
CallOK(c, sg) == /\ Len(c.a) <= Len(sg)
                 /\ \A j \in DOMAIN c.kw : \E q \in DOMAIN sg : sg[q] = c.kw[j].n /\ q > Len(c.a)
                 /\ \A j, q \in DOMAIN c.kw : j # q => c.kw[j].n # c.kw[q].n

\* ------------------------------------------------------------- evaluation
NaI == -999999
Lit(e) == IF e.k = "num" /\ e.d = 1 THEN e.n ELSE NaI
IsInts(e, t) == e.k = "seq" /\ e.t = t /\ \A j \in DOMAIN e.a : Lit(e.a[j]) # NaI
Ints(e) == [j \in DOMAIN e.a |-> Lit(e.a[j])]
DomOK(e) == e = Undef \/ (e.k = "seq" /\ IsInts(e, "set")) \/ (e.k = "call" /\ e.f = "set" /\ e.a = << >>)
Dom(e) == IF e.k = "seq" THEN Ints(e) ELSE << >>
\* numbers: << n, d >>, or << 0, 0 >>
Zero2 == << 0, 0 >>
Frac(e) ==
  CASE e.k = "num" -> << e.n, e.d >>
    [] e.k = "name" /\ e.v = "pi" -> << 1, 1 >>
    [] OTHER -> Zero2
RECURSIVE Num(_)
Num(e) ==
  CASE e.k \in {"num", "name"} -> Frac(e)
    [] e.k = "neg" -> LET a == Num(e.a) IN IF a[2] = 0 THEN Zero2 ELSE << -a[1], a[2] >>
    [] e.k = "bin" /\ e.op = "*" -> LET a == Num(e.a[1]) b == Num(e.a[2]) IN << a[1] * b[1], a[2] * b[2] >>
    [] e.k = "bin" /\ e.op = "/" -> LET a == Num(e.a[1]) b == Num(e.a[2]) IN IF b[1] > 0 THEN << a[1] * b[2], a[2] * b[1] >> ELSE Zero2
    [] OTHER -> Zero2
SameFrac(a, b) == a[2] # 0 /\ a[1] * b[2] = b[1] * a[2]
\* an angle: a number, or c * name + b
SameAngle(e, x) ==
  IF x.x = "" THEN SameFrac(Num(e), x.a)
  ELSE CASE e.k = "name" -> e.v = x.x /\ SameFrac(<< 1, 1 >>, x.c) /\ SameFrac(<< 0, 1 >>, x.a)
         [] e.k = "bin" /\ e.op = "+" -> /\ SameFrac(Num(e.a[2]), x.a)
                                         /\ e.a[1].k = "bin" /\ e.a[1].op = "*" /\ e.a[1].a[2].k = "name" /\ e.a[1].a[2].v = x.x
                                         /\ SameFrac(Num(e.a[1].a[1]), x.c)
         [] OTHER -> FALSE
\* a measurement: Measurement.X, -Measurement.Y, Measurement.XY(angle)
Base(e) == IF e.k = "neg" THEN e.a ELSE e
PauliName(e) == CASE Base(e).k = "name" /\ Base(e).v = "Measurement.X" -> "X" [] Base(e).k = "name" /\ Base(e).v = "Measurement.Y" -> "Y"
                  [] Base(e).k = "name" /\ Base(e).v = "Measurement.Z" -> "Z" [] OTHER -> "?"
SameMeas(e, m) ==
  IF m.pauli = 1
  THEN IF e = Undef THEN m.pl = "X" /\ m.sg = 0 ELSE PauliName(e) = m.pl /\ m.sg = (IF e.k = "neg" THEN 1 ELSE 0)
  ELSE e.k = "call" /\ e.f = "Measurement." \o m.pl /\ Len(e.a) = 1 /\ e.kw = << >> /\ SameAngle(e.a[1], m)
\* a planar state: << plane, << n, d >> >>; the default is plus
PlaneName(e) == IF e.k = "name" THEN e.v ELSE "?"
SameState(e, st) ==
  IF e = Undef THEN st[1] = "XY" /\ SameFrac(st[2], << 0, 1 >>)
  ELSE /\ e.k = "call" /\ e.f \in {"graphix.states.PlanarState", "PlanarState"} /\ Len(e.a) = 2 /\ e.kw = << >>
       /\ PlaneName(e.a[1]) = "Plane." \o st[1] /\ SameFrac(Num(e.a[2]), st[2])
\* Clifford gates act on the axes: images of X and of Z as << axis, sign >>; the image of Y follows
ImI == << << "X", 0 >>, << "Z", 0 >> >>
ImH == << << "Z", 0 >>, << "X", 0 >> >>
ImS == << << "Y", 0 >>, << "Z", 0 >> >>
ImZ == << << "X", 1 >>, << "Z", 0 >> >>
\* Y = i X Z: image of Y from images of X and Z (i A B for anticommuting Paulis A, B)
Third == [X |-> [Y |-> << "Z", 1 >>, Z |-> << "Y", 0 >>], Y |-> [X |-> << "Z", 0 >>, Z |-> << "X", 1 >>], Z |-> [X |-> << "Y", 1 >>, Y |-> << "X", 0 >>]]
ImY(g) == LET t == Third[g[1][1]][g[2][1]] IN << t[1], (t[2] + g[1][2] + g[2][2]) % 2 >>
On(g, p) == LET r == CASE p[1] = "X" -> g[1] [] p[1] = "Z" -> g[2] [] OTHER -> ImY(g) IN << r[1], (r[2] + p[2]) % 2 >>
\* a @ b applies b first
Mul(a, b) == << On(a, b[1]), On(a, b[2]) >>
NoCl == << << "?", 0 >>, << "?", 0 >> >>
Gen(v) == CASE v = "Clifford.I" -> ImI [] v = "Clifford.H" -> ImH [] v = "Clifford.S" -> ImS [] v = "Clifford.Z" -> ImZ [] OTHER -> NoCl
RECURSIVE Cliff(_)
Cliff(e) == CASE e.k = "name" -> Gen(e.v)
              [] e.k = "bin" /\ e.op = "@" -> LET a == Cliff(e.a[1]) b == Cliff(e.a[2]) IN IF NoCl \in {a, b} THEN NoCl ELSE Mul(a, b)
              [] OTHER -> NoCl

\* signed Paulis and units: [ax, ph], ph the power of i; ax = "" for a number
NoPauli == [ax |-> "?", ph |-> 0]
RECURSIVE PauliOf(_)
PauliOf(e) ==
  CASE e.k = "name" -> IF \E a \in {"I", "X", "Y", "Z"} : e.v = "Pauli." \o a THEN [ax |-> CHOOSE a \in {"I", "X", "Y", "Z"} : e.v = "Pauli." \o a, ph |-> 0] ELSE NoPauli
    [] e.k = "imag" -> IF e.n = 1 THEN [ax |-> "", ph |-> 1] ELSE NoPauli
    [] e.k = "num" -> IF e.n = 1 /\ e.d = 1 THEN [ax |-> "", ph |-> 0] ELSE NoPauli
    [] e.k = "neg" -> LET a == PauliOf(e.a) IN [a EXCEPT !.ph = (@ + 2) % 4]
    [] e.k = "bin" /\ e.op = "*" -> LET a == PauliOf(e.a[1]) b == PauliOf(e.a[2]) IN
                                    IF NoPauli \in {a, b} \/ (a.ax # "" /\ b.ax # "") THEN NoPauli ELSE [ax |-> a.ax \o b.ax, ph |-> (a.ph + b.ph) % 4]
    [] OTHER -> NoPauli
SamePauli(e, x) == PauliOf(e) = x
\* Pauli strings are written as a sign and one letter per position
Letter(x, j) == LET at == { q \in DOMAIN x.axes : x.axes[q][1] = j - 1 } IN IF at = {} THEN "I" ELSE x.axes[CHOOSE q \in at : TRUE][2]
SameString(e, x) == /\ e.k = "chars" /\ Len(e.a) = x.dim + 1 /\ e.a[1] = (IF x.sg = 1 THEN "-" ELSE "+")
                    /\ \A j \in 1 .. x.dim : e.a[j + 1] = Letter(x, j)
CmdSame(c, x) ==
  /\ c.k = "call" /\ c.f = x.k /\ CallOK(c, Sig[x.k])
  /\ LET A(nm) == Arg(c, Sig[x.k], nm) IN
     CASE x.k = "N" -> Lit(A("node")) = x.ns[1] /\ SameState(A("state"), x.st)
       [] x.k = "E" -> IsInts(A("nodes"), "tuple") /\ Ints(A("nodes")) = x.ns
       [] x.k = "M" -> /\ Lit(A("node")) = x.ns[1] /\ SameMeas(A("measurement"), x.m) /\ DomOK(A("s_domain")) /\ DomOK(A("t_domain"))
                       /\ Range(Dom(A("s_domain"))) = Range(x.s) /\ Range(Dom(A("t_domain"))) = Range(x.t)
       [] x.k \in {"X", "Z", "S"} -> Lit(A("node")) = x.ns[1] /\ DomOK(A("domain")) /\ Range(Dom(A("domain"))) = Range(x.s)
       [] x.k = "C" -> Lit(A("node")) = x.ns[1] /\ Cliff(A("clifford")) = << << x.cl[1], x.cl[2] >>, << x.cl[3], x.cl[4] >> >>
       [] OTHER -> TRUE
AxisOf(e) == IF e.k = "name" THEN e.v ELSE "?"
InsSame(c, x) ==
  /\ c.k = "call" /\ c.f = x.g /\ CallOK(c, SigI[x.g])
  /\ LET A(nm) == Arg(c, SigI[x.g], nm) IN
     CASE x.g \in {"CNOT"} -> << Lit(A("control")), Lit(A("target")) >> = x.q
       [] x.g = "RZZ" -> << Lit(A("control")), Lit(A("target")) >> = x.q /\ SameAngle(A("angle"), x.a)
       [] x.g = "CCX" -> IsInts(A("controls"), "tuple") /\ Append(Ints(A("controls")), Lit(A("target"))) = x.q
       [] x.g \in {"SWAP", "CZ"} -> IsInts(A("targets"), "tuple") /\ Ints(A("targets")) = x.q
       [] x.g = "M" -> Lit(A("target")) = x.q[1] /\ AxisOf(A("axis")) = "Axis." \o x.axis
       [] x.g \in {"RX", "RY", "RZ", "J"} -> Lit(A("target")) = x.q[1] /\ SameAngle(A("angle"), x.a)
       [] OTHER -> Lit(A("target")) = x.q[1]

\* --------------------------------------------------------------- machine
T == Case.tree
Whole == Case.mode \in {"pattern", "circuit"}
PSig == << "input_nodes", "cmds", "output_nodes" >>
CSig == << "width", "instr" >>
Items == LET e == IF Case.mode = "pattern" THEN Arg(T, PSig, "cmds") ELSE Arg(T, CSig, "instr") IN IF e = Undef THEN << >> ELSE e.a
NodeList(nm) == LET e == Arg(T, PSig, nm) IN IF e = Undef THEN << >> ELSE IF IsInts(e, "list") THEN Ints(e) ELSE << NaI >>
Head0 ==
  IF ~Whole THEN "ok"
  ELSE IF T.k # "call" THEN "not-a-constructor"
  ELSE IF Case.mode = "pattern"
  THEN IF T.f # "Pattern" \/ ~CallOK(T, PSig) THEN "not-a-constructor"
       ELSE IF NodeList("input_nodes") # Case.ins THEN "inputs"
       ELSE IF NodeList("output_nodes") # Case.outs THEN "outputs"
       ELSE IF Len(Items) # Len(Case.elts) THEN "number-of-elements" ELSE "ok"
  ELSE IF T.f # "Circuit" \/ ~CallOK(T, CSig) THEN "not-a-constructor"
       ELSE IF Lit(Arg(T, CSig, "width")) # Case.width THEN "width"
       ELSE IF Len(Items) # Len(Case.elts) THEN "number-of-elements" ELSE "ok"
Init == cid \in DOMAIN Cases /\ i = 0 /\ verdict = "running"
Judge(c) == verdict' = c /\ Out(c) /\ UNCHANGED << cid, i >>
Constructor == /\ verdict = "running" /\ i = 0
               /\ IF Head0 # "ok" THEN Judge(Head0) ELSE i' = 1 /\ UNCHANGED << cid, verdict >>
Element == /\ verdict = "running" /\ i >= 1 /\ i <= Len(Case.elts)
           /\ LET e == IF Whole THEN Items[i] ELSE T
                  x == Case.elts[i]
                  ok == CASE Case.mode \in {"pattern", "command"} -> CmdSame(e, x)
                          [] Case.mode \in {"circuit", "instruction"} -> InsSame(e, x)
                          [] Case.mode = "measurement" -> SameMeas(e, x)
                          [] Case.mode = "pauli" -> SamePauli(e, x)
                          [] Case.mode = "string" -> SameString(e, x)
                          [] Case.mode = "enum" -> e.k = "name" /\ e.v = x.v
                          [] OTHER -> Cliff(e) = << << x.cl[1], x.cl[2] >>, << x.cl[3], x.cl[4] >> >>
              IN IF ok THEN i' = i + 1 /\ UNCHANGED << cid, verdict >> ELSE Judge("element")
Finish == /\ verdict = "running" /\ i > Len(Case.elts)
          /\ Judge(IF Case.again = << Case.elts, Case.ins, Case.outs, Case.width >> THEN "ok" ELSE "evaluates-to-another-object")
Next == Constructor \/ Element \/ Finish
Spec == Init /\ [][Next]_vars
Sane == i <= Len(Case.elts) + 1
=============================================================================
