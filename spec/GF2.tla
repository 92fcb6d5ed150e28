-------------------------------- MODULE GF2 --------------------------------
(***************************************************************************)
(* Linear algebra over the two-element field.  A matrix is a sequence of   *)
(* rows, a row is its set of columns.  The machine reduces the recorded    *)
(* matrix, then the matrices the code returned, one column per step, by    *)
(* elementary row operations; the reduced row echelon form is unique, so   *)
(* two matrices span the same space iff the machine reduces them alike.    *)
(* After each reduction the machine judges the recorded answer.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, k, p, j, rows, base, phase
vars == << cid, k, p, j, rows, base, phase >>
Case == Cases[cid]
Ops == Case.ops
Op == Ops[k]

Xor(S, T) == (S \ T) \cup (T \ S)
Ones(r) == { c \in DOMAIN r : r[c] = 1 }
Rows(M) == [i \in DOMAIN M |-> Ones(M[i])]
A == Rows(Case.A)
Height == Case.m
Width == Case.n
Binary(M, h, w) == Len(M) = h /\ \A i \in DOMAIN M : Len(M[i]) = w /\ \A c \in DOMAIN M[i] : M[i][c] \in {0, 1}
RankOf(R) == Cardinality({ i \in DOMAIN R : R[i] # {} })
Lead(r) == Min(r)
\* sum of the rows of R selected by S
RECURSIVE Sum(_, _)
Sum(R, S) == IF S = {} THEN {} ELSE LET i == CHOOSE i \in S : TRUE IN Xor(R[i], Sum(R, S \ {i}))
Times(L, R) == [i \in DOMAIN L |-> Sum(R, L[i])]
Unit(h) == [i \in 1..h |-> {i}]
Odd(S) == Cardinality(S) % 2

\* echelon form on the first w columns
Cut(R, w) == [i \in DOMAIN R |-> { c \in R[i] : c <= w }]
Echelon(R) == /\ \A i, h \in DOMAIN R : i < h /\ R[h] # {} => R[i] # {} /\ Lead(R[i]) < Lead(R[h])
Reduced(R) == Echelon(R) /\ \A i, h \in DOMAIN R : i # h /\ R[i] # {} => Lead(R[i]) \notin R[h]

Judge ==
  IF Op.op = "new" THEN
    IF ~Binary(Op.R, Height, Width) \/ Rows(Op.R) # A THEN "constructor" ELSE IF Op.copy = 1 /\ Op.shared = 1 THEN "constructor-shares" ELSE IF Op.copy = 0 /\ Op.shared = 0 THEN "constructor-copies" ELSE ""
  ELSE IF Op.kept = 0 THEN "argument-changed " \o Op.op
  ELSE CASE Op.op = "rank" -> IF Op.r = RankOf(base) THEN "" ELSE "rank"
    [] Op.op = "ref" ->
         IF ~Binary(Op.R, Height, Width) THEN "shape"
         ELSE IF Op.copy = 0 /\ Op.same = 0 THEN "not-in-place"
         ELSE IF rows # base THEN "row-space"
         ELSE IF ~(IF Op.full = 1 THEN Reduced(Cut(Rows(Op.R), Op.ncols)) ELSE Echelon(Cut(Rows(Op.R), Op.ncols))) THEN "not-echelon"
         ELSE ""
    [] Op.op = "null" ->
         IF ~Binary(Op.R, Width - RankOf(base), Width) THEN "nullity"
         ELSE IF RankOf(rows) # Len(Op.R) THEN "null-dependent"
         ELSE IF \E i \in DOMAIN Op.R, h \in DOMAIN A : Odd(Ones(Op.R[i]) \cap A[h]) = 1 THEN "not-in-kernel"
         ELSE ""
    [] Op.op = "rinv" ->
         IF Op.none = 1 THEN (IF RankOf(base) = Height THEN "inverse-missed" ELSE "")
         ELSE IF RankOf(base) < Height THEN "inverse-invented"
         ELSE IF ~Binary(Op.R, Width, Height) \/ Times(A, Rows(Op.R)) # Unit(Height) THEN "not-inverse"
         ELSE ""
    [] Op.op = "mul" ->
         IF Op.refused = 1 THEN (IF Op.h = Width THEN "product-refused" ELSE "")
         ELSE IF Op.h # Width THEN "product-accepted"
         ELSE IF ~Binary(Op.R, Height, Op.w) \/ Rows(Op.R) # Times(A, Rows(Op.B)) THEN "product"
         ELSE ""
    [] Op.op = "solve" ->   \* A is in echelon form and b in its column space
         IF Len(Op.x) # Width \/ \E i \in DOMAIN A : Odd(Ones(Op.x) \cap A[i]) # Op.b[i] THEN "solution" ELSE ""

Subject(q) == IF q > 0 /\ Ops[q].op \in {"ref", "null"} THEN Rows(Ops[q].R) ELSE << >>
Load(q) == /\ k' = q /\ p' = 1 /\ j' = 1 /\ rows' = Subject(q)
Init == /\ cid \in DOMAIN Cases /\ k = 0 /\ p = 1 /\ j = 1 /\ rows = A /\ base = << >> /\ phase = "reduce"

Pivots == { i \in DOMAIN rows : i >= p /\ j \in rows[i] }
Skip == /\ phase = "reduce" /\ j <= Width /\ Pivots = {} /\ j' = j + 1 /\ UNCHANGED << cid, k, p, rows, base, phase >>
Pivot ==
  /\ phase = "reduce" /\ j <= Width /\ Pivots # {}
  /\ \E i \in {Max(Pivots)} : \E sw \in {[rows EXCEPT ![p] = rows[i], ![i] = rows[p]]} :
       rows' = [h \in DOMAIN rows |-> IF h # p /\ j \in sw[h] THEN Xor(sw[h], sw[p]) ELSE sw[h]]
  /\ p' = p + 1 /\ j' = j + 1 /\ UNCHANGED << cid, k, base, phase >>
Finished == phase = "reduce" /\ j > Width
Based == /\ Finished /\ k = 0 /\ base' = rows
         /\ IF Ops = << >> THEN phase' = "done" /\ UNCHANGED << k, p, j, rows >> ELSE Load(1) /\ UNCHANGED phase
         /\ UNCHANGED cid
Answer ==
  /\ Finished /\ k > 0
  /\ IF Judge # "" THEN phase' = "rejected" /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> Judge, op |-> k])) /\ UNCHANGED << k, p, j, rows >>
     ELSE IF k = Len(Ops) THEN phase' = "done" /\ PrintT(ToJson([v |-> "K", id |-> Case.id])) /\ UNCHANGED << k, p, j, rows >>
     ELSE Load(k + 1) /\ UNCHANGED phase
  /\ UNCHANGED << cid, base >>
Next == Skip \/ Pivot \/ Based \/ Answer
Spec == Init /\ [][Next]_vars

\* the machine's own form is reduced on the columns already treated, and its rank is bounded by the shape
Works == phase = "reduce" => Reduced(Cut(rows, j - 1)) /\ RankOf(Cut(rows, j - 1)) = p - 1 /\ p - 1 <= Len(rows) /\ p <= j
=============================================================================
