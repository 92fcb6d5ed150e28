------------------------------ MODULE Register ------------------------------
(***************************************************************************)
(* Which descriptions of a quantum register are accepted, and the size of  *)
(* the register that results.  A description is                            *)
(*   one    : a single single-qubit state, to be repeated                  *)
(*   states : a list of single-qubit states                                *)
(*   amps   : a list of amplitudes (normed = 1 iff of norm one)            *)
(*   sv, dm : an existing register of n qubits                             *)
(*   rows   : a matrix, with its shape and the facts herm, tr1, psd        *)
(* nq, mq are the requested number of qubits and capacity (-1: not given,  *)
(* other negative values: given but negative).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
Case == Cases[cid]
IsPow2(k) == \E n \in 0..12 : 2^n = k
Log2(k) == CHOOSE n \in 0..12 : 2^n = k
D == Case.data
Given(x) == x # -1
\* number of qubits described, or -1 when the description is not a register
Described ==
  CASE D.k = "one" -> IF Given(Case.nq) THEN Case.nq ELSE 1
    [] D.k = "states" -> D.n
    [] D.k = "amps" -> IF IsPow2(D.n) /\ D.normed = 1 THEN Log2(D.n) ELSE -1
    [] D.k = "empty" -> 0
    [] D.k \in {"sv", "dm"} -> D.n
    [] D.k = "rows" -> IF D.rows = D.cols /\ IsPow2(D.rows) /\ D.tr1 = 1 /\ D.psd = 1 THEN Log2(D.rows) ELSE -1
Size == Described
Accept ==
  /\ ~Given(Case.nq) \/ Case.nq >= 0
  /\ ~Given(Case.mq) \/ Case.mq >= 0
  /\ Size >= 0
  /\ Given(Case.nq) => Case.nq = Size
  /\ Given(Case.mq) => Case.mq >= Size
Capacity == IF Given(Case.mq) THEN Case.mq ELSE IF D.k = "sv" THEN D.cap ELSE Size
Clauses == << << "accepted-invalid", Case.ok = 1 => Accept >>, << "rejected-valid", Accept => Case.ok = 1 >>,
              << "size", Case.ok = 1 /\ Accept => Case.rn = Size /\ Case.rlen = 2^Size >>,
              << "capacity", Case.ok = 1 /\ Accept /\ Case.cap = 1 => Case.rm = Capacity >> >>
Failed == {Clauses[i][1] : i \in {j \in DOMAIN Clauses : ~Clauses[j][2]}}
Init == cid \in DOMAIN Cases /\ verdict = "running"
Judge == /\ verdict = "running"
         /\ LET f == Failed IN
            /\ verdict' = IF f = {} THEN "ok" ELSE "bad"
            /\ IF f = {} THEN PrintT(ToJson([v |-> "K", id |-> Case.id]))
               ELSE \A c \in f : PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c]))
         /\ UNCHANGED cid
Next == Judge
Spec == Init /\ [][Next]_<< cid, verdict >>
=============================================================================
