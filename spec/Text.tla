-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* A reader of the human-readable renderings (ASCII, unicode, LaTeX) of    *)
(* patterns, flows and corrections.                                        *)
(*                                                                         *)
(* The machine consumes the token sequence of a recorded rendering one     *)
(* command at a time.  Each action is the grammar of one kind of command   *)
(* in the three formats; it decodes the command and demands that it is the *)
(* next command of the object, in the requested direction and among the    *)
(* requested kinds, with its nodes, plane, angle (an exact fraction of pi, *)
(* or an affine expression of a parameter) and domains.  A text may stop   *)
(* early only by announcing the exact number of commands left out.         *)
(*                                                                         *)
(* Tokens: [t, v, i, rn, rd]; t in id, int, num, sym, sub, sup, sp; rn/rd  *)
(* is the value of a literal in units of pi when read as radians.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, k, cnt, got, verdict
vars == << cid, k, cnt, got, verdict >>
Case == Cases[cid]
Fmt == Case.fmt
Toks == Case.toks
NT == Len(Toks)
End == [t |-> "eof", v |-> "<eof>", i |-> -1, rn |-> 0, rd |-> 0]
Tk(p) == IF p <= NT THEN Toks[p] ELSE End
V(p) == Tk(p).v
IsSym(p, s) == Tk(p).t = "sym" /\ Tk(p).v = s
IsInt(p) == Tk(p).t = "int"
IsId(p) == Tk(p).t = "id"
Bad == [ok |-> FALSE, nx |-> 0]

\* ---------------------------------------------------------- commands due
Wanted == IF Case.kinds = << "*" >> THEN Case.cmds ELSE SelectSeq(Case.cmds, LAMBDA c : \E i \in DOMAIN Case.kinds : Case.kinds[i] = c.k)
Due == IF Case.l2r = 1 THEN Wanted ELSE Reverse(Wanted)
NDue == Len(Due)

\* -------------------------------------------------------------- grammar
RECURSIVE IntList(_, _)
\* int , int , ... up to something else
IntList(p, acc) ==
  IF ~IsInt(p) THEN Bad
  ELSE IF IsSym(p + 1, ",") THEN IntList(p + 2, Append(acc, Tk(p).i))
  ELSE [ok |-> TRUE, nx |-> p + 1, l |-> Append(acc, Tk(p).i)]
Braced(p) ==
  IF ~IsSym(p, "{") THEN Bad
  ELSE LET r == IntList(p + 1, << >>) IN IF r.ok /\ IsSym(r.nx, "}") THEN [r EXCEPT !.nx = @ + 1] ELSE Bad
RECURSIVE Marks(_, _, _, _)
\* subscripts (superscripts) joined by a plus in the same position
Marks(p, t, plus, acc) ==
  IF Tk(p).t # t THEN Bad
  ELSE IF IsSym(p + 1, plus) THEN Marks(p + 2, t, plus, Append(acc, Tk(p).i))
  ELSE [ok |-> TRUE, nx |-> p + 1, l |-> Append(acc, Tk(p).i)]

IsPi(p) == IsId(p) /\ V(p) \in {"pi", "π", "\\pi"}
IsMul(p) == (Tk(p).t = "sym" /\ V(p) \in {"*", "×"}) \/ (IsId(p) /\ V(p) = "\\times")
\* one term: [ok, nx, n, d, pi] : n/d, and whether pi is a factor; a literal read as radians counts as one
Prod(p) ==
  CASE IsInt(p) /\ IsPi(p + 1) -> [ok |-> TRUE, nx |-> p + 2, n |-> Tk(p).i, d |-> 1, pi |-> 1]
    [] IsInt(p) /\ IsMul(p + 1) /\ IsPi(p + 2) -> [ok |-> TRUE, nx |-> p + 3, n |-> Tk(p).i, d |-> 1, pi |-> 1]
    [] IsPi(p) -> [ok |-> TRUE, nx |-> p + 1, n |-> 1, d |-> 1, pi |-> 1]
    [] IsInt(p) /\ Tk(p).i = 0 -> [ok |-> TRUE, nx |-> p + 1, n |-> 0, d |-> 1, pi |-> 1]
    [] Tk(p).t = "num" \/ IsInt(p) -> [ok |-> TRUE, nx |-> p + 1, n |-> Tk(p).rn, d |-> Tk(p).rd, pi |-> 1]
    [] OTHER -> Bad
Unsigned(p) ==
  IF IsId(p) /\ V(p) = "\\frac"
  THEN LET a == Prod(p + 2) IN
       IF IsSym(p + 1, "{") /\ a.ok /\ IsSym(a.nx, "}") /\ IsSym(a.nx + 1, "{") /\ IsInt(a.nx + 2) /\ IsSym(a.nx + 3, "}")
       THEN [a EXCEPT !.nx = @ + 4, !.d = @ * Tk(a.nx + 2).i] ELSE Bad
  ELSE LET a == Prod(p) IN
       IF a.ok /\ IsSym(a.nx, "/") THEN (IF IsInt(a.nx + 1) THEN [a EXCEPT !.nx = @ + 2, !.d = @ * Tk(a.nx + 1).i] ELSE Bad) ELSE a
Angle(p) ==
  IF IsSym(p, "-") THEN LET a == Unsigned(p + 1) IN IF a.ok THEN [a EXCEPT !.n = -@] ELSE Bad ELSE Unsigned(p)
IsName(p) == IsId(p) /\ ~IsPi(p) /\ V(p) \notin {"\\frac", "\\times"}
\* angle, or [angle *] name [+ angle]; a coefficient that is not written is 1 radian (<< 0, 0 >>)
Value(p) ==
  LET a == IF IsName(p) THEN Bad ELSE Angle(p)
      withname == IsName(p) \/ (a.ok /\ IsMul(a.nx) /\ IsName(a.nx + 1))
      at == IF IsName(p) THEN p ELSE a.nx + 1
      plus == IsSym(at + 1, "+")
      b == IF plus THEN Angle(at + 2) ELSE [ok |-> TRUE, nx |-> at + 1, n |-> 0, d |-> 1, pi |-> 1]
  IN IF ~withname
     THEN IF a.ok THEN [ok |-> TRUE, nx |-> a.nx, x |-> "", an |-> 0, ad |-> 0, n |-> a.n, d |-> a.d] ELSE Bad
     ELSE IF ~b.ok THEN Bad
     ELSE [ok |-> TRUE, nx |-> b.nx, x |-> V(at), an |-> IF IsName(p) THEN 0 ELSE a.n, ad |-> IF IsName(p) THEN 0 ELSE a.d, n |-> b.n, d |-> b.d]

\* measurement arguments, starting at p and ending before the token "close"
Planes == {"XY", "XZ", "YZ"}
DefaultM == [ok |-> TRUE, nx |-> 0, pauli |-> 1, pl |-> "X", sg |-> 0, x |-> "", an |-> 0, ad |-> 0, n |-> 0, d |-> 1]
MeasArgs(p) ==
  IF Tk(p).t = "sym" /\ V(p) \in {"+", "-"} /\ IsId(p + 1) /\ V(p + 1) \in {"X", "Y", "Z"}
  THEN [DefaultM EXCEPT !.nx = p + 2, !.pl = V(p + 1), !.sg = IF V(p) = "-" THEN 1 ELSE 0]
  ELSE LET pl == IF IsId(p) /\ V(p) \in Planes THEN V(p) ELSE "XY"
           q == IF IsId(p) /\ V(p) \in Planes THEN p + 2 ELSE p
           a == Value(q)
       IN IF (IsId(p) /\ V(p) \in Planes /\ ~IsSym(p + 1, ",")) \/ ~a.ok THEN Bad
          ELSE [ok |-> TRUE, nx |-> a.nx, pauli |-> 0, pl |-> pl, sg |-> 0, x |-> a.x, an |-> a.an, ad |-> a.ad, n |-> a.n, d |-> a.d]
RECURSIVE Skip(_, _, _)
\* position of the closing symbol of a balanced group
Skip(p, close, depth) ==
  IF Tk(p).t = "eof" THEN 0
  ELSE IF depth = 0 /\ IsSym(p, close) THEN p
  ELSE Skip(p + 1, close, IF Tk(p).t = "sym" /\ V(p) \in {"{", "("} THEN depth + 1 ELSE IF Tk(p).t = "sym" /\ V(p) \in {"}", ")"} THEN depth - 1 ELSE depth)

Cmd0 == [ok |-> TRUE, nx |-> 0, k |-> "", ns |-> << >>, m |-> DefaultM, s |-> << >>, t |-> << >>]
\* a command without the domains of a measurement
Core(p) ==
  LET kind == V(p) IN
  IF ~IsId(p) \/ kind \notin {"N", "E", "M", "X", "Z", "C", "S", "T"} THEN Bad
  ELSE IF kind = "T" THEN [Cmd0 EXCEPT !.nx = p + 1, !.k = "T"]
  ELSE IF Fmt = "ascii"
  THEN IF ~IsSym(p + 1, "(") \/ ~IsInt(p + 2) THEN Bad
       ELSE LET n == Tk(p + 2).i
                base == [Cmd0 EXCEPT !.k = kind, !.ns = << n >>]
            IN CASE kind = "E" -> IF IsSym(p + 3, ",") /\ IsInt(p + 4) /\ IsSym(p + 5, ")") THEN [base EXCEPT !.ns = << n, Tk(p + 4).i >>, !.nx = p + 6] ELSE Bad
                 [] kind = "C" -> IF ~IsSym(p + 3, ",") \/ Skip(p + 4, ")", 0) = 0 THEN Bad ELSE [base EXCEPT !.nx = Skip(p + 4, ")", 0) + 1]
                 [] kind = "N" -> IF IsSym(p + 3, ")") THEN [base EXCEPT !.nx = p + 4] ELSE Bad
                 [] kind = "M" -> IF IsSym(p + 3, ")") THEN [base EXCEPT !.nx = p + 4]
                                  ELSE LET m == MeasArgs(p + 4) IN IF IsSym(p + 3, ",") /\ m.ok /\ IsSym(m.nx, ")") THEN [base EXCEPT !.m = m, !.nx = m.nx + 1] ELSE Bad
                 [] OTHER -> IF IsSym(p + 3, ")") THEN [base EXCEPT !.nx = p + 4]
                             ELSE LET d == Braced(p + 4) IN IF IsSym(p + 3, ",") /\ d.ok /\ IsSym(d.nx, ")") THEN [base EXCEPT !.s = d.l, !.nx = d.nx + 1] ELSE Bad
  ELSE IF Fmt = "unicode"
  THEN IF Tk(p + 1).t # "sub" THEN Bad
       ELSE LET n == Tk(p + 1).i
                base == [Cmd0 EXCEPT !.k = kind, !.ns = << n >>]
            IN CASE kind = "E" -> IF IsSym(p + 2, "₋") /\ Tk(p + 3).t = "sub" THEN [base EXCEPT !.ns = << n, Tk(p + 3).i >>, !.nx = p + 4] ELSE Bad
                 [] kind = "C" -> IF ~IsSym(p + 2, "(") \/ Skip(p + 3, ")", 0) = 0 THEN Bad ELSE [base EXCEPT !.nx = Skip(p + 3, ")", 0) + 1]
                 [] kind = "N" -> [base EXCEPT !.nx = p + 2]
                 [] kind = "M" -> IF ~IsSym(p + 2, "(") THEN [base EXCEPT !.nx = p + 2]
                                  ELSE LET m == MeasArgs(p + 3) IN IF m.ok /\ IsSym(m.nx, ")") THEN [base EXCEPT !.m = m, !.nx = m.nx + 1] ELSE Bad
                 [] OTHER -> IF Tk(p + 2).t # "sup" THEN [base EXCEPT !.nx = p + 2]
                             ELSE LET d == Marks(p + 2, "sup", "⁺", << >>) IN IF d.ok THEN [base EXCEPT !.s = d.l, !.nx = d.nx] ELSE Bad
  ELSE IF ~IsSym(p + 1, "_") THEN Bad
       ELSE LET ns == Braced(p + 2) IN
            IF ~ns.ok THEN Bad
            ELSE LET base == [Cmd0 EXCEPT !.k = kind, !.ns = ns.l, !.nx = ns.nx]
                     sup == IsSym(ns.nx, "^") /\ IsSym(ns.nx + 1, "{")
                 IN CASE kind \in {"E", "N"} -> base
                      [] kind = "C" -> IF ~sup \/ Skip(ns.nx + 2, "}", 0) = 0 THEN Bad ELSE [base EXCEPT !.nx = Skip(ns.nx + 2, "}", 0) + 1]
                      [] kind = "M" -> IF ~sup THEN base
                                       ELSE LET m == MeasArgs(ns.nx + 2) IN IF m.ok /\ IsSym(m.nx, "}") THEN [base EXCEPT !.m = m, !.nx = m.nx + 1] ELSE Bad
                      [] OTHER -> IF ~sup THEN base ELSE LET d == Braced(ns.nx + 1) IN IF d.ok THEN [base EXCEPT !.s = d.l, !.nx = d.nx] ELSE Bad
NoDom(p) == [ok |-> TRUE, nx |-> p, l |-> << >>]
\* the domain written before (t) or after (s) a bracketed measurement
Before(p) ==
  CASE Fmt = "ascii" -> IF IsSym(p, "{") THEN Braced(p) ELSE NoDom(p)
    [] Fmt = "unicode" -> IF Tk(p).t = "sub" THEN Marks(p, "sub", "₊", << >>) ELSE NoDom(p)
    [] OTHER -> IF IsSym(p, "{") THEN (IF IsSym(p + 1, "}") /\ IsSym(p + 2, "_") THEN Braced(p + 3) ELSE Bad) ELSE NoDom(p)
After(p) ==
  CASE Fmt = "ascii" -> IF IsSym(p, "{") THEN Braced(p) ELSE NoDom(p)
    [] Fmt = "unicode" -> IF Tk(p).t = "sup" THEN Marks(p, "sup", "⁺", << >>) ELSE NoDom(p)
    [] OTHER -> IF IsSym(p, "^") THEN Braced(p + 1) ELSE NoDom(p)
Bracketed(p) ==
  LET t == Before(p) IN
  IF ~t.ok \/ ~IsSym(t.nx, "[") THEN Bad
  ELSE LET c == Core(t.nx + 1) IN
       IF ~c.ok \/ c.k # "M" \/ ~IsSym(c.nx, "]") THEN Bad
       ELSE LET s == After(c.nx + 1) IN IF ~s.ok THEN Bad ELSE [c EXCEPT !.nx = s.nx, !.s = s.l, !.t = t.l]
Read(p) == IF IsId(p) THEN Core(p) ELSE Bracketed(p)

\* ------------------------------------------------------------ comparison
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
SameSet(s, e) == NoDup(s) /\ { s[i] : i \in DOMAIN s } = { e[i] : i \in DOMAIN e }
SameFrac(n, d, e) == d # 0 /\ n * e[2] = e[1] * d
SameM(m, e) ==
  IF e.pauli = 1 THEN m.pauli = 1 /\ m.pl = e.pl /\ m.sg = e.sg
  ELSE /\ m.pauli = 0 /\ m.pl = e.pl /\ m.x = e.x /\ SameFrac(m.n, m.d, e.a)
       /\ (e.x # "" => IF m.ad = 0 THEN e.c = << 0, 0 >> ELSE SameFrac(m.an, m.ad, e.c))
Diff(c, e) ==
  IF c.k # e.k THEN "kind"
  ELSE IF c.ns # e.ns THEN "nodes"
  ELSE IF c.k = "M" /\ ~SameM(c.m, e.m) THEN "measurement"
  ELSE IF c.k \in {"M", "X", "Z", "S"} /\ ~SameSet(c.s, e.s) THEN "domain"
  ELSE IF c.k = "M" /\ ~SameSet(c.t, e.t) THEN "domain"
  ELSE "ok"

\* --------------------------------------------------------------- machine
Init == /\ cid \in DOMAIN Cases /\ cnt = 0 /\ got = << >> /\ verdict = "running"
        /\ k = IF Cases[cid].fmt = "latex" /\ Cases[cid].mode = "pattern" THEN 2 ELSE 1
Out(c) == PrintT(ToJson(IF c = "ok" THEN [v |-> "K", id |-> Case.id] ELSE [v |-> "F", id |-> Case.id, c |-> c]))
Judge(c) == verdict' = c /\ Out(c) /\ UNCHANGED << cid, k, cnt, got >>
Running == verdict = "running"
IsDots(p) == IsSym(p, "...")
IsClose(p) == Fmt = "latex" /\ IsSym(p, "\\)")

\* pattern renderings
OpenOK == Fmt # "latex" \/ (NT > 0 /\ IsSym(1, "\\("))
Command ==
  /\ Running /\ Case.mode = "pattern" /\ OpenOK /\ k <= NT /\ ~IsDots(k) /\ ~IsClose(k)
  /\ \E p \in { IF Tk(k).t = "sp" THEN k + 1 ELSE k } : \E c \in { Read(p) } :
       IF (cnt > 0) # (Tk(k).t = "sp") THEN Judge("separator")
       ELSE IF ~c.ok THEN Judge("syntax")
       ELSE IF cnt >= NDue THEN Judge("extra-command")
       ELSE IF Diff(c, Due[cnt + 1]) # "ok" THEN Judge(Diff(c, Due[cnt + 1]))
       ELSE k' = c.nx /\ cnt' = cnt + 1 /\ UNCHANGED << cid, got, verdict >>
\* after the last command: the closing of a formula, then possibly the announcement
Closing == IF Fmt = "latex" THEN k + 1 ELSE k
Announced(p) == IF IsDots(p) /\ IsSym(p + 1, "(") /\ IsInt(p + 2) /\ V(p + 4) = "more" /\ V(p + 6) = "commands" /\ IsSym(p + 7, ")") /\ p + 7 = NT THEN Tk(p + 2).i ELSE -1
EndPattern ==
  /\ Running /\ Case.mode = "pattern" /\ (~OpenOK \/ k > NT \/ IsDots(k) \/ IsClose(k))
  /\ IF ~OpenOK \/ (Fmt = "latex" /\ ~IsClose(k)) THEN Judge("syntax")
     ELSE IF Closing > NT THEN Judge(IF cnt = NDue THEN "ok" ELSE "command-missing")
     ELSE IF Announced(Closing) = -1 THEN Judge("syntax")
     ELSE IF cnt + Announced(Closing) # NDue THEN Judge("wrong-number-announced")
     ELSE IF Case.limit < 0 \/ NDue <= Case.limit THEN Judge("truncated-without-need")
     ELSE Judge("ok")

\* flows and corrections: name(node) = {set}, then layers
Blank(p) == Tk(p).t = "sp" \/ (Tk(p).t = "sym" /\ V(p) \in {",", ";", "\\\\"})
RECURSIVE Past(_)
Past(p) == IF p <= NT /\ Blank(p) THEN Past(p + 1) ELSE p
SpPast(p) == IF Tk(p).t = "sp" THEN p + 1 ELSE p
RECURSIVE SetItems(_, _)
SetItems(p, acc) ==
  IF ~IsInt(p) THEN Bad
  ELSE IF IsSym(p + 1, ",") THEN SetItems(SpPast(p + 2), Append(acc, Tk(p).i))
  ELSE [ok |-> TRUE, nx |-> p + 1, l |-> Append(acc, Tk(p).i)]
OpenB(p) == Tk(p).t = "sym" /\ V(p) \in {"{", "\\{"}
CloseB(p) == Tk(p).t = "sym" /\ V(p) \in {"}", "\\}"}
ASet(p) == IF ~OpenB(p) THEN Bad
           ELSE IF CloseB(p + 1) THEN [ok |-> TRUE, nx |-> p + 2, l |-> << >>]
           ELSE LET r == SetItems(p + 1, << >>) IN IF r.ok /\ CloseB(r.nx) THEN [r EXCEPT !.nx = @ + 1] ELSE Bad
Entry ==
  /\ Running /\ Case.mode = "flow" /\ IsId(Past(k))
  /\ \E p \in { Past(k) } : \E s \in { ASet(SpPast(SpPast(p + 4) + 1)) } :
       IF ~IsSym(p + 1, "(") \/ ~IsInt(p + 2) \/ ~IsSym(p + 3, ")") \/ ~IsSym(SpPast(p + 4), "=") \/ ~s.ok \/ ~NoDup(s.l) THEN Judge("syntax")
       ELSE k' = s.nx /\ got' = Append(got, << V(p), Tk(p + 2).i, s.l >>) /\ cnt' = cnt + 1 /\ UNCHANGED << cid, verdict >>
Less(p) == Tk(p).t \in {"sym", "id"} /\ V(p) \in {"<", "≺", "\\prec"}
RECURSIVE Layers(_, _)
Layers(p, acc) ==
  LET s == ASet(p) IN
  IF ~s.ok \/ ~NoDup(s.l) THEN Bad
  ELSE IF Less(SpPast(s.nx)) THEN Layers(SpPast(SpPast(s.nx) + 1), Append(acc, s.l))
  ELSE [ok |-> TRUE, nx |-> s.nx, l |-> Append(acc, s.l)]
Rng(s) == { s[i] : i \in DOMAIN s }
SameEntry(g, e) == g[1] = e[1] /\ g[2] = e[2] /\ Rng(g[3]) = Rng(e[3])
EntriesOK == /\ Len(got) = Len(Case.entries)
             /\ \A i \in DOMAIN Case.entries : \E j \in DOMAIN got : SameEntry(got[j], Case.entries[i])
             /\ \A i, j \in DOMAIN got : i # j => << got[i][1], got[i][2] >> # << got[j][1], got[j][2] >>
EndFlow ==
  /\ Running /\ Case.mode = "flow" /\ ~IsId(Past(k))
  /\ \E p \in { Past(k) } : \E l \in { IF p > NT THEN [ok |-> TRUE, nx |-> p, l |-> << >>] ELSE Layers(p, << >>) } :
       IF ~l.ok \/ l.nx <= NT THEN Judge("syntax")
       ELSE IF ~EntriesOK THEN Judge("corrections")
       ELSE IF Len(l.l) # Len(Case.layers) THEN Judge("layers")
       ELSE IF \E i \in DOMAIN l.l : Rng(l.l[i]) # Rng(Case.layers[Len(l.l) + 1 - i]) THEN Judge("layers")
       ELSE Judge("ok")

Next == Command \/ EndPattern \/ Entry \/ EndFlow
Spec == Init /\ [][Next]_vars
Sane == k <= NT + 2 /\ (Case.mode = "pattern" => cnt <= NDue)
=============================================================================
