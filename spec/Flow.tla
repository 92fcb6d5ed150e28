-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Causal flow, generalised flow and Pauli flow of open graphs, from their *)
(* definitions.                                                            *)
(*                                                                         *)
(* A case describes an open graph (V, E, I, O, lab) and something the      *)
(* implementation did with it:                                             *)
(*   t = "search": the result of searching a flow of kind "c", "g" or "p"  *)
(*   t = "wf"    : the verdict of the well-formedness check of a (possibly *)
(*                 broken) flow object                                     *)
(*   t = "xz"    : likewise for a set of XZ-corrections                    *)
(*   t = "ind"   : the layers induced by correction dictionaries, or the   *)
(*                 reason why they were refused                            *)
(*   t = "rec"   : the Pauli flow reconstructed from XZ-corrections        *)
(*   t = "ext"   : the causal flow or gflow read off XZ-corrections        *)
(*   t = "og"    : the open graph extracted from a pattern                 *)
(*   t = "cor"   : the XZ-corrections computed from a well-formed flow     *)
(*   t = "foc"   : the verdict whether a flow is focused                   *)
(*   t = "ord"   : the verdict whether a total order is compatible         *)
(*   t = "cert"  : the result of searching a flow of an open graph too     *)
(*                 large to search here, beside a flow known to exist      *)
(*                 (c, layers) and the flow found (f, fl)                  *)
(*                                                                         *)
(* The state machine below builds flows backwards, layer by layer: "done"  *)
(* is the set of nodes already placed (so later in time than every node    *)
(* still missing); a node may be placed when some correction set satisfies *)
(* the defining conditions.  Since enlarging "done" only relaxes the       *)
(* conditions, a flow exists iff done can reach V, and placing the maximal *)
(* layer each time gives the least possible depth.  With case field        *)
(* all = 1 TLC explores EVERY order of placing nodes, checking the         *)
(* invariants NeverTrapped and DepthLeast, i.e. this very argument.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid, done, depth, fin, verdict
vars == << cid, done, depth, fin, verdict >>

Rng(s) == {s[i] : i \in DOMAIN s}
VTab == [c \in DOMAIN Cases |-> Rng(Cases[c].V)]
ITab == [c \in DOMAIN Cases |-> Rng(Cases[c].I)]
OTab == [c \in DOMAIN Cases |-> Rng(Cases[c].O)]
NbTab == [c \in DOMAIN Cases |->
            [v \in VTab[c] |-> {w \in VTab[c] : w # v /\ \E i \in DOMAIN Cases[c].E :
                                                \/ Cases[c].E[i] = <<v, w>> \/ Cases[c].E[i] = <<w, v>>}]]
LabTab == [c \in DOMAIN Cases |->
            [v \in VTab[c] |-> IF \E i \in DOMAIN Cases[c].lab : Cases[c].lab[i][1] = v
                               THEN Cases[c].lab[CHOOSE i \in DOMAIN Cases[c].lab : Cases[c].lab[i][1] = v][2]
                               ELSE "out"]]
Case == Cases[cid]
V == VTab[cid]
I == ITab[cid]
O == OTab[cid]
Nb == NbTab[cid]
Lab == LabTab[cid]
Kind == Case.kind

\* Planar label of a node (generalised and causal flows read Pauli labels as special angles of a plane).
PlaneOf(l) == CASE l \in {"X", "Y"} -> "XY" [] l = "Z" -> "YZ" [] OTHER -> l

Odd(S) == {u \in V : Cardinality(Nb[u] \cap S) % 2 = 1}
NbSet(S) == UNION {Nb[v] : v \in S \cap V}

\* ------------------------------------------------------------ definitions
\* Each clause speaks of a node u, its correction set S and the set A of nodes later than u.
P1(u, S, A) == \A i \in S \ {u} : i \in A \/ Lab[i] \in {"X", "Y"}
P2(u, S, A) == \A i \in Odd(S) \ {u} : i \in A \/ Lab[i] \in {"Y", "Z"}
P3(u, S, A) == LET od == Odd(S) IN \A i \in V \ (A \cup {u}) : Lab[i] = "Y" => (i \in S <=> i \in od)
P4(u, S) == Lab[u] = "XY" => u \notin S /\ u \in Odd(S)
P5(u, S) == Lab[u] = "XZ" => u \in S /\ u \in Odd(S)
P6(u, S) == Lab[u] = "YZ" => u \in S /\ u \notin Odd(S)
P7(u, S) == Lab[u] = "X" => u \in Odd(S)
P8(u, S) == Lab[u] = "Z" => u \in S
P9(u, S) == Lab[u] = "Y" => ~(u \in S <=> u \in Odd(S))
PauliOK(u, S, A) == /\ P1(u, S, A) /\ P2(u, S, A) /\ P3(u, S, A)
                    /\ P4(u, S) /\ P5(u, S) /\ P6(u, S) /\ P7(u, S) /\ P8(u, S) /\ P9(u, S)

G1(u, S, A) == S \ {u} \subseteq A
G2(u, S, A) == Odd(S) \ {u} \subseteq A
G3(u, S) == PlaneOf(Lab[u]) = "XY" => u \notin S /\ u \in Odd(S)
G4(u, S) == PlaneOf(Lab[u]) = "XZ" => u \in S /\ u \in Odd(S)
G5(u, S) == PlaneOf(Lab[u]) = "YZ" => u \in S /\ u \notin Odd(S)
GOK(u, S, A) == G1(u, S, A) /\ G2(u, S, A) /\ G3(u, S) /\ G4(u, S) /\ G5(u, S)

C0(u, S) == Cardinality(S) = 1
C1(u, S) == u \in NbSet(S)
C2(u, S, A) == S \subseteq A
C3(u, S, A) == NbSet(S) \ {u} \subseteq A
COK(u, S, A) == PlaneOf(Lab[u]) = "XY" /\ C0(u, S) /\ C1(u, S) /\ C2(u, S, A) /\ C3(u, S, A)

OK(u, S, A) == CASE Kind = "p" -> PauliOK(u, S, A) [] Kind = "g" -> GOK(u, S, A) [] Kind = "c" -> COK(u, S, A)

\* Correction sets that can possibly satisfy the order clause
Candidates(u, A) ==
  LET base == V \ I
      may == CASE Kind = "p" -> {i \in base : i \in A \/ i = u \/ Lab[i] \in {"X", "Y"}}
               [] Kind = "g" -> {i \in base : i \in A \/ i = u}
               [] OTHER -> base \cap A
  IN IF Kind = "c" THEN {{x} : x \in may} ELSE SUBSET may
Placeable(A) == {u \in V \ (O \cup A) : \E S \in Candidates(u, A) : OK(u, S, A)}

\* --------------------------------------------------------- flow objects
\* correction function: sequence of <<node, sequence of nodes>>; layers: sequence of sequences
CDom == {Case.c[i][1] : i \in DOMAIN Case.c}
CSet(u) == Rng(Case.c[CHOOSE i \in DOMAIN Case.c : Case.c[i][1] = u][2])
Lay(i) == Rng(Case.layers[i])
NLay == Len(Case.layers)
First == IF O = {} THEN 1 ELSE 2        \* first layer of measured nodes
\* nodes later than u: those that are in no layer from u's (deepest) layer on
LayerOf(u) == CHOOSE i \in 1..NLay : u \in Lay(i) /\ \A j \in 1..NLay : j > i => u \notin Lay(j)
Later(u) == (V \cup UNION {Lay(i) : i \in 1..NLay}) \ UNION {Lay(j) : j \in LayerOf(u)..NLay}

LayersOK == /\ (NLay = 0 => V = {})
            /\ (O # {} /\ NLay > 0 => Lay(1) = O)
            /\ \A i \in First..NLay : Lay(i) # {} /\ Lay(i) \subseteq V \ O
            /\ \A i, j \in First..NLay : i # j => Lay(i) \cap Lay(j) = {}
            /\ UNION {Lay(i) : i \in 1..NLay} = V
DomOK == CDom = V \ O
ImgOK == \A u \in CDom : CSet(u) \subseteq V \ I
FlowOK == DomOK /\ ImgOK /\ LayersOK /\ \A u \in V \ O : OK(u, CSet(u), Later(u))

\* The same for the flow found in a "cert" case, with the layer of every node and the set later than it given once.
FSet(u) == Rng(Case.f[CHOOSE i \in DOMAIN Case.f : Case.f[i][1] = u][2])
FLay(i) == Rng(Case.fl[i])
NFLay == Len(Case.fl)
FoundDom == {Case.f[i][1] : i \in DOMAIN Case.f} = V \ O
FoundImg == \A u \in V \ O : FSet(u) \subseteq V \ I
FoundLayers == /\ (O # {} => NFLay > 0 /\ FLay(1) = O)
               /\ \A i \in First..NFLay : FLay(i) # {} /\ FLay(i) \subseteq V \ O
               /\ \A i, j \in First..NFLay : i # j => FLay(i) \cap FLay(j) = {}
               /\ UNION {FLay(i) : i \in 1..NFLay} = V
FoundOK == \A i \in First..NFLay : LET late == UNION {FLay(j) : j \in 1..(i - 1)} IN
             \A u \in FLay(i) : OK(u, FSet(u), late)
FoundFocused ==
  LET l(w) == IF Kind = "p" THEN Lab[w] ELSE PlaneOf(Lab[w]) IN
  \A u \in V \ O : \E S \in {FSet(u)} : \E od \in {Odd(S)} :
    \A w \in V \ (O \cup {u}) :
      /\ (w \in S => l(w) \in {"XY", "X", "Y"})
      /\ (w \in od => l(w) \in {"XZ", "YZ", "Y", "Z"})
      /\ (l(w) = "Y" => (w \in S <=> w \in od))

Focused ==
  LET l(w) == IF Kind = "p" THEN Lab[w] ELSE PlaneOf(Lab[w]) IN
  \A u \in CDom : LET S == CSet(u)  od == Odd(S) IN
    \A w \in V \ (O \cup {u}) :
      /\ (w \in S => l(w) \in {"XY", "X", "Y"})
      /\ (w \in od => l(w) \in {"XZ", "YZ", "Y", "Z"})
      /\ (l(w) = "Y" => (w \in S <=> w \in od))

\* Is the reported reason of a rejection really violated?
Genuine(r) ==
  LET u == r.node
      placed == u \in V \ O /\ u \in CDom /\ \E i \in 1..NLay : u \in Lay(i)
      idx == r.layer + 1
  IN CASE r.why = "IncorrectCorrectionFunctionDomain" -> ~DomOK
       [] r.why = "IncorrectCorrectionFunctionImage" -> ~ImgOK
       [] r.why = "XYPlane" -> \E v \in V \ O : PlaneOf(Lab[v]) # "XY"
       [] r.why = "Empty" -> NLay = 0 /\ (V # {} \/ Case.t = "xz")
       [] r.why = "IncorrectNodes" -> UNION {Lay(i) : i \in 1..NLay} # V
       [] r.why = "FirstLayer" -> NLay > 0 /\ O # {} /\ Lay(1) # O
       [] r.why = "NthLayer" -> /\ idx \in First..NLay
                                /\ \/ Lay(idx) = {}
                                   \/ ~(Lay(idx) \subseteq V \ O)
                                   \/ \E j \in 1..NLay : j # idx /\ Lay(idx) \cap Lay(j) # {}
       [] ~placed -> FALSE
       [] r.why = "C0" -> ~C0(u, CSet(u))
       [] r.why = "C1" -> ~C1(u, CSet(u))
       [] r.why = "C2" -> ~C2(u, CSet(u), Later(u))
       [] r.why = "C3" -> ~C3(u, CSet(u), Later(u))
       [] r.why = "G1" -> ~G1(u, CSet(u), Later(u))
       [] r.why = "G2" -> ~G2(u, CSet(u), Later(u))
       [] r.why = "G3" -> ~G3(u, CSet(u))
       [] r.why = "G4" -> ~G4(u, CSet(u))
       [] r.why = "G5" -> ~G5(u, CSet(u))
       [] r.why = "P1" -> ~P1(u, CSet(u), Later(u) \cap V)
       [] r.why = "P2" -> ~P2(u, CSet(u), Later(u))
       [] r.why = "P3" -> ~P3(u, CSet(u), Later(u))
       [] r.why = "P4" -> ~P4(u, CSet(u))
       [] r.why = "P5" -> ~P5(u, CSet(u))
       [] r.why = "P6" -> ~P6(u, CSet(u))
       [] r.why = "P7" -> ~P7(u, CSet(u))
       [] r.why = "P8" -> ~P8(u, CSet(u))
       [] r.why = "P9" -> ~P9(u, CSet(u))
       [] OTHER -> FALSE

\* ------------------------------------------------------ XZ-corrections
Get(f, u) == IF \E i \in DOMAIN f : f[i][1] = u THEN Rng(f[CHOOSE i \in DOMAIN f : f[i][1] = u][2]) ELSE {}
Keys(f) == {f[i][1] : i \in DOMAIN f}
XC(u) == Get(Case.x, u)
ZC(u) == Get(Case.z, u)
XZKeysOK == Keys(Case.x) \cup Keys(Case.z) \subseteq V \ O
XZValsOK == \A u \in Keys(Case.x) \cup Keys(Case.z) : XC(u) \cup ZC(u) \subseteq V
XZOrderOK == \A u \in Keys(Case.x) \cup Keys(Case.z) : u \in V => XC(u) \cup ZC(u) \subseteq Later(u)
XZOK == XZKeysOK /\ XZValsOK /\ LayersOK /\ XZOrderOK
XZGenuine(r) ==
  LET u == r.node
      placed == \E i \in 1..NLay : u \in Lay(i)
  IN CASE r.why = "IncorrectKeys" -> ~XZKeysOK
       [] r.why = "IncorrectValues" -> ~XZValsOK
       [] r.why = "X" -> placed /\ ~(XC(u) \subseteq Later(u))
       [] r.why = "Z" -> placed /\ ~(ZC(u) \subseteq Later(u))
       [] OTHER -> Genuine(r)

\* Pauli flow compatible with given corrections, node by node
Compatible(u, S) == /\ S \cap Later(u) = XC(u)
                    /\ Odd(S) \cap Later(u) = ZC(u)
                    /\ PauliOK(u, S, Later(u))
RecExists == \A u \in V \ O : \E S \in SUBSET (V \ I) : Compatible(u, S)

\* corrections induced by a well-formed flow: what a measurement result changes later on
CorX(u) == CASE Kind = "p" -> CSet(u) \cap Later(u) [] Kind = "g" -> CSet(u) \ {u} [] OTHER -> CSet(u)
CorZ(u) == CASE Kind = "p" -> Odd(CSet(u)) \cap Later(u) [] OTHER -> Odd(CSet(u)) \ {u}

\* causal flow / gflow read off the X-corrections of a pattern
ExtSet(u) == XC(u) \cup (IF Kind = "g" /\ PlaneOf(Lab[u]) \in {"XZ", "YZ"} THEN {u} ELSE {})
ExtKeys == {u \in V : XC(u) # {}}

\* open graph of a pattern: nodes prepared or given, edges entangled an odd number of times,
\* the pattern's ports in order, exactly the measured nodes measured
PEdge(a, b) == Cardinality({i \in DOMAIN Case.pE : Case.pE[i] = <<a, b>> \/ Case.pE[i] = <<b, a>>})
GEdge(a, b) == \E i \in DOMAIN Case.E : Case.E[i] = <<a, b>> \/ Case.E[i] = <<b, a>>
OgVerdict ==
  IF V # Rng(Case.pI) \cup Rng(Case.pN) THEN "nodes"
  ELSE IF \E a, b \in V : a # b /\ ~(GEdge(a, b) <=> PEdge(a, b) % 2 = 1) THEN "edges"
  ELSE IF \E i \in DOMAIN Case.E : Case.E[i][1] = Case.E[i][2] \/ ~(Rng(Case.E[i]) \subseteq V) THEN "edges"
  ELSE IF Case.I # Case.pI \/ Case.O # Case.pO THEN "ports"
  ELSE IF {Case.lab[i][1] : i \in DOMAIN Case.lab} # Rng(Case.pM) THEN "measured"
  ELSE "ok"

\* corrections without cycle among measured nodes
Succ(u) == (XC(u) \cup ZC(u)) \ O
RECURSIVE Peel(_)
Peel(R) == LET src == {u \in R : \A w \in R : u \notin Succ(w)} IN IF src = {} THEN R ELSE Peel(R \ src)
Acyclic == Peel((V \ O) \cup UNION {Succ(u) : u \in V \ O}) = {}

\* ---------------------------------------------------------- single-step verdicts
Verdict ==
  CASE Case.t = "wf" ->
         IF Case.ok = 1 THEN (IF FlowOK THEN "ok" ELSE "accepted-ill-formed")
         ELSE IF FlowOK THEN "rejected-well-formed"
         ELSE IF Genuine(Case.r) THEN "ok" ELSE "wrong-reason"
    [] Case.t = "xz" ->
         IF Case.ok = 1 THEN (IF XZOK THEN "ok" ELSE "accepted-ill-formed")
         ELSE IF XZOK THEN "rejected-well-formed"
         ELSE IF XZGenuine(Case.r) THEN "ok" ELSE "wrong-reason"
    [] Case.t = "ind" ->
         LET good == XZKeysOK /\ XZValsOK /\ Acyclic IN
         IF Case.ok = 1 THEN (IF ~good THEN "accepted-ill-formed" ELSE IF XZOK THEN "ok" ELSE "induced-layers")
         ELSE IF good THEN "rejected-well-formed"
         ELSE IF \/ Case.r.why = "IncorrectKeys" /\ ~XZKeysOK
                 \/ Case.r.why = "IncorrectValues" /\ ~XZValsOK
                 \/ Case.r.why = "ClosedLoop" /\ ~Acyclic THEN "ok" ELSE "wrong-reason"
    [] Case.t = "rec" ->
         IF Case.ok = 0 THEN (IF RecExists THEN "missed-flow" ELSE "ok")
         ELSE IF DomOK /\ ImgOK /\ \A u \in V \ O : Compatible(u, CSet(u)) THEN "ok" ELSE "unsound"
    [] Case.t = "cor" ->
         IF ~FlowOK THEN "unsound"
         ELSE IF \A u \in V \ O : XC(u) = CorX(u) /\ ZC(u) = CorZ(u) THEN "ok" ELSE "corrections"
    [] Case.t = "ext" ->
         LET good == V # {} /\ LayersOK /\ \A u \in V \ O : ExtSet(u) \subseteq V \ I /\ OK(u, ExtSet(u), Later(u)) IN
         IF Case.ok = 0 THEN (IF good /\ (Kind = "c" => ExtKeys = V \ O) THEN "missed-flow" ELSE "ok")
         ELSE IF ~good THEN "unsound"
         ELSE IF DomOK /\ \A u \in V \ O : CSet(u) = ExtSet(u) THEN "ok" ELSE "not-the-corrections"
    [] Case.t = "cert" ->
         IF ~FlowOK THEN "bad-certificate"             \* cannot happen
         ELSE IF Case.ok = 0 THEN "missed-flow"
         ELSE IF ~FoundDom THEN "domain"
         ELSE IF ~FoundImg THEN "image"
         ELSE IF ~FoundLayers THEN "layers"
         ELSE IF ~FoundOK THEN "unsound"
         ELSE IF NFLay > NLay THEN "depth"             \* the found flow has the least depth, so no known one is shallower
         ELSE IF Kind # "c" /\ ~FoundFocused THEN "focus"
         ELSE "ok"
    [] Case.t = "og" -> OgVerdict
    [] Case.t = "foc" -> IF (Case.ok = 1) <=> Focused THEN "ok" ELSE "is_focused"
    [] Case.t = "ord" ->
         LET good == /\ Len(Case.order) = Cardinality(V \ O) /\ Rng(Case.order) = V \ O
                     /\ \A i, j \in DOMAIN Case.order : i < j => LayerOf(Case.order[i]) >= LayerOf(Case.order[j])
         IN IF (Case.ok = 1) <=> good THEN "ok" ELSE "compatibility"

\* ---------------------------------------------------------------- machine
Init == /\ cid \in DOMAIN Cases
        /\ done = OTab[cid]
        /\ depth = IF OTab[cid] = {} THEN 0 ELSE 1
        /\ fin = FALSE
        /\ verdict = "running"

Say(v) == IF v = "ok" THEN PrintT(ToJson([v |-> "K", id |-> Case.id]))
          ELSE PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> v]))

Judge == /\ ~fin /\ Case.t # "search"
         /\ verdict' = Verdict /\ fin' = TRUE /\ Say(verdict')
         /\ UNCHANGED << cid, done, depth >>

Place ==
  /\ ~fin /\ Case.t = "search" /\ done # V
  /\ LET p == Placeable(done) IN
       /\ p # {}
       /\ \E L \in (IF Case.all = 1 THEN SUBSET p \ {{}} ELSE {p}) : done' = done \cup L
  /\ depth' = depth + 1
  /\ UNCHANGED << cid, fin, verdict >>

RECURSIVE Greedy(_, _)
Greedy(A, d) == IF A = V THEN << A, d >>
                ELSE LET p == Placeable(A) IN IF p = {} THEN << A, d >> ELSE Greedy(A \cup p, d + 1)
GreedyEnd == Greedy(O, IF O = {} THEN 0 ELSE 1)

SearchVerdict(reached) ==
  IF Case.ok = 0 THEN (IF reached THEN "missed-flow" ELSE "ok")
  ELSE IF ~DomOK THEN "domain"
  ELSE IF ~ImgOK THEN "image"
  ELSE IF ~LayersOK THEN "layers"
  ELSE IF ~FlowOK THEN "unsound"
  ELSE IF ~reached THEN "spec-incomplete"       \* cannot happen
  ELSE IF Case.all = 0 /\ NLay # depth THEN "depth"
  ELSE IF Kind # "c" /\ ~Focused THEN "focus"
  ELSE "ok"

Finish ==
  /\ ~fin /\ Case.t = "search" /\ (done = V \/ Placeable(done) = {})
  /\ verdict' = SearchVerdict(done = V) /\ fin' = TRUE /\ Say(verdict')
  /\ UNCHANGED << cid, done, depth >>

Next == Judge \/ Place \/ Finish
Spec == Init /\ [][Next]_vars

\* --------------------------------------- the argument behind the search oracle
NeverTrapped == (Case.t = "search" /\ Case.all = 1 /\ fin) => done = GreedyEnd[1]
DepthLeast == (Case.t = "search" /\ Case.all = 1 /\ done = V) => GreedyEnd[2] <= depth
=============================================================================
