------------------------------- MODULE Picture -------------------------------
(***************************************************************************)
(* A reader of drawings.                                                   *)
(*                                                                         *)
(* The machine looks at the elements of a recorded picture one at a time,  *)
(* in the order marks, strokes, texts, and works out what the picture      *)
(* shows: which marks there are, which text names which mark, which two    *)
(* marks a stroke connects and in which direction, which texts annotate a  *)
(* mark, and which number stands under which column.  When the picture has *)
(* been read, what it shows is compared with the object that was drawn:    *)
(* its nodes, their roles, edges, corrections, layers and annotations, and *)
(* with the legend.  Only the picture is interpreted, never the internal   *)
(* layout tables of the drawing code.                                      *)
(*                                                                         *)
(* Element: [k, a, b, c, v, sq, dash, head, n, mid]                        *)
(*   mark  at a, colour c, sq = 1 when square                              *)
(*   line  from a to b; head = 1 when it ends in an arrowhead; n points    *)
(*   head  an arrowhead at b (coming from a), of colour c                  *)
(*   text  v shown at a; dash = 1: placed relative to the axes             *)
(* Case: [id, els, legend, alts, opt]; alts: what may be shown, each       *)
(*   [nodes, ins, outs, pauli, sides, edges, arrows, layers, loops, hollow]*)
(*   opt: [names, legend, meas, cliff, pauli, dx, dy, graph]               *)
(*   names: << label, node >> pairs, or empty when no labels are wanted    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pos, pic, verdict
vars == << cid, pos, pic, verdict >>
Case == Cases[cid]
Els == Case.els
Opt == Case.opt
El == Els[pos]
Rng(s) == { s[k] : k \in DOMAIN s }
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(a, b) == Max({Abs(a[1] - b[1]), Abs(a[2] - b[2])})
Near(a, b, t) == Dist(a, b) <= t
Tie == 2                                    \* two positions are the same
Reach == IF Opt.graph = 1 THEN Tie ELSE 240                                \* a stroke may stop this far from the centre of the mark it points to

Start == [marks |-> << >>, lines |-> {}, names |-> {}, sides |-> {}, cols |-> {}, stray |-> 0, overlap |-> 0]
Init == cid \in DOMAIN Cases /\ pos = 1 /\ pic = Start /\ verdict = ""

At(p, t) == { i \in DOMAIN pic.marks : Near(pic.marks[i].a, p, t) }
\* the mark whose centre is nearest
Closest(p) == LET c == At(p, Reach) IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : Dist(pic.marks[i].a, p) <= Dist(pic.marks[j].a, p)
Reading == verdict = "" /\ pos <= Len(Els)
Is(k) == Reading /\ El.k = k
Next_(new) == pic' = new /\ pos' = pos + 1 /\ UNCHANGED << cid, verdict >>

Mark == Is("mark") /\ Next_([pic EXCEPT !.marks = Append(@, [a |-> El.a, c |-> El.c, sq |-> El.sq]), !.overlap = IF At(El.a, Case.gap) = {} THEN @ ELSE @ + 1])
\* a stroke points when it ends in a head of its own, or when a separate head of the same colour sits at its end
Headed == El.head = 1 \/ \E h \in Rng(Els) : h.k = "head" /\ h.c = El.c /\ Near(h.b, El.b, Tie)
Stroke == Is("line") /\ \E i \in {Closest(El.a)}, j \in {Closest(El.b)} :
  LET l == [i |-> i, j |-> j, c |-> El.c, dash |-> El.dash, head |-> IF Headed THEN 1 ELSE 0, n |-> El.n, mid |-> El.mid] IN
  Next_([pic EXCEPT !.lines = @ \cup {l}, !.stray = IF i = 0 \/ j = 0 THEN @ + 1 ELSE @])
Point == Is("head") /\ Next_([pic EXCEPT !.stray = IF \E l \in Rng(Els) : l.k = "line" /\ l.c = El.c /\ Near(l.b, El.b, Tie) THEN @ ELSE @ + 1])
Beside(p) == { i \in DOMAIN pic.marks : p[1] - pic.marks[i].a[1] \in 100..300 /\ Abs(p[2] - pic.marks[i].a[2]) \in 100..300 }
Word == Is("text") /\
  Next_(IF El.dash = 1 THEN [pic EXCEPT !.cols = @ \cup {<< El.a[1], El.v >>}]
        ELSE IF At(El.a, Tie) # {} THEN [pic EXCEPT !.names = @ \cup {<< El.v, CHOOSE i \in At(El.a, Tie) : TRUE >>}]
        ELSE IF Beside(El.a) # {} THEN [pic EXCEPT !.sides = @ \cup {<< CHOOSE i \in Beside(El.a) : \A j \in Beside(El.a) : Dist(pic.marks[i].a, El.a) <= Dist(pic.marks[j].a, El.a), El.v >>}]
        ELSE [pic EXCEPT !.stray = @ + 1])
Done == Reading = FALSE /\ verdict = ""

\* ------------------------------------------------------------- the judgement
Idx == DOMAIN pic.marks
\* mark i shows node Of[i]
Who(i) == { n[2] : n \in { q \in Rng(Opt.names) : << q[1], i >> \in pic.names } }
Named == /\ \A i \in Idx : Cardinality({ q \in pic.names : q[2] = i }) = 1 /\ Cardinality(Who(i)) = 1
         /\ \A i, j \in Idx : Who(i) = Who(j) => i = j
Of(i) == CHOOSE n \in Who(i) : TRUE
Dashed == { l \in pic.lines : l.head = 0 /\ (Opt.graph = 1 \/ l.dash = 1) }
Pointing == { l \in pic.lines : Opt.graph = 0 /\ l.dash = 0 }
Labelled == Len(Opt.names) > 0

Fill(A, n) == IF Opt.graph = 1 THEN IF n \in Rng(A.hollow) THEN "white" ELSE "filled"
              ELSE IF n \in Rng(A.outs) THEN "gray" ELSE IF n \in Rng(A.pauli) /\ Opt.pauli = 1 THEN "blue" ELSE "white"
Shape(A, n) == IF n \in Rng(A.ins) THEN 1 ELSE 0
EdgesOf(A) == { {e[1], e[2]} : e \in Rng(A.edges) } \cup { {v} : v \in Rng(A.loops) }
Sides(A) == { << s[1], s[3] >> : s \in { q \in Rng(A.sides) : (q[2] = 1 /\ Opt.meas = 1) \/ (q[2] = 2 /\ Opt.cliff = 1) } }
Texts(A) == { << Of(s[1]), s[2] >> : s \in pic.sides }
LayerOf(A, n) == CHOOSE k \in DOMAIN A.layers : n \in Rng(A.layers[k])
NL(A) == Len(A.layers)
\* layers[1] is layer 0, drawn in the last column
ColumnsOk(A) == NL(A) = 0 \/
  /\ \A i, j \in Idx : pic.marks[j].a[1] - pic.marks[i].a[1] - Opt.dx * (LayerOf(A, Of(i)) - LayerOf(A, Of(j))) \in -Tie..Tie
  /\ \A i \in Idx : \E q \in pic.cols : Abs(q[1] - pic.marks[i].a[1]) <= Tie /\ q[2] = ToString(LayerOf(A, Of(i)) - 1)
  /\ \A k \in 0..(NL(A) - 1) : Cardinality({ q \in pic.cols : q[2] = ToString(k) }) = 1
ArrowsShown == { << Of(l.i), Of(l.j), l.c >> : l \in Pointing }
Want(A) ==
  (IF Rng(A.ins) # {} THEN {<< "Input nodes", "white", 1, 0 >>} ELSE {}) \cup (IF Rng(A.outs) # {} THEN {<< "Output nodes", "gray", 0, 0 >>} ELSE {})
  \cup (IF Rng(A.pauli) # {} /\ Opt.pauli = 1 THEN {<< "Pauli-measured nodes", "blue", 0, 0 >>} ELSE {})
  \cup (IF Rng(A.edges) # {} THEN {<< "Graph edge", "black", 0, 1 >>} ELSE {})
  \cup { << m[1], m[2], 0, 0 >> : m \in { q \in {<< "Correction function", "black" >>, << "X corrections", "red" >>, << "Z corrections", "green" >>, << "X and Z corrections", "brown" >>} :
            \E a \in Rng(A.arrows) : a[3] = q[2] } }
Shown == { << q.v, q.c, q.sq, q.dash >> : q \in Rng(Case.legend) }

Fault(A) ==
  IF pic.overlap > 0 THEN "two-nodes-in-one-place"
  ELSE IF Cardinality(Idx) # Len(A.nodes) THEN "marks"
  ELSE IF pic.stray > 0 THEN "stray-element"
  ELSE IF ~Labelled THEN IF pic.names # {} THEN "labels-not-wanted" ELSE "ok"
  ELSE IF ~Named THEN "labels"
  ELSE IF { Of(i) : i \in Idx } # Rng(A.nodes) THEN "nodes"
  ELSE IF \E i \in Idx : pic.marks[i].sq # Shape(A, Of(i)) THEN "input-markers"
  ELSE IF \E i \in Idx : pic.marks[i].c # Fill(A, Of(i)) THEN "node-colours"
  ELSE IF { {Of(l.i), Of(l.j)} : l \in Dashed } # EdgesOf(A) THEN "edges"
  ELSE IF Opt.graph = 0 /\ Cardinality(Dashed) # Cardinality(EdgesOf(A)) THEN "edge-drawn-twice"
  ELSE IF \E l \in Pointing : l.head = 0 THEN "arrow-without-head"
  ELSE IF ArrowsShown # { << a[1], a[2], a[3] >> : a \in Rng(A.arrows) } \/ Cardinality(Pointing) # Cardinality(ArrowsShown) THEN "corrections"
  ELSE IF ~ColumnsOk(A) THEN "layers"
  ELSE IF Texts(A) # Sides(A) \/ Cardinality(pic.sides) # Cardinality(Texts(A)) THEN "annotations"
  ELSE IF Opt.legend = 1 /\ (Shown # Want(A) \/ Cardinality(Shown) # Len(Case.legend)) THEN "legend"
  ELSE IF Opt.legend = 0 /\ Len(Case.legend) > 0 THEN "legend-not-wanted"
  ELSE "ok"
Judge == Done /\ \E fs \in {{ Fault(Case.alts[k]) : k \in DOMAIN Case.alts }} :
  /\ verdict' = IF "ok" \in fs THEN "ok" ELSE Fault(Case.alts[1])
  /\ PrintT(ToJson(IF verdict' = "ok" THEN [v |-> "K", id |-> Case.id] ELSE [v |-> "F", id |-> Case.id, c |-> verdict']))
  /\ UNCHANGED << cid, pos, pic >>

Next == Mark \/ Stroke \/ Point \/ Word \/ Judge
Spec == Init /\ [][Next]_vars
Sane == /\ pos \in 1..(Len(Els) + 1) /\ Len(pic.marks) <= pos
        /\ \A l \in pic.lines : l.i \in 0..Len(pic.marks) /\ l.j \in 0..Len(pic.marks)
==============================================================================
