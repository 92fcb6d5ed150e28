------------------------------- MODULE Kraus -------------------------------
(***************************************************************************)
(* Which lists of operators are quantum channels, exactly.  A case gives   *)
(* the operators as Gaussian-integer matrices with their shapes, positive  *)
(* weights w and a common factor N: the list describes the coefficients    *)
(* sqrt(w_i / N).  A list is a channel iff it is not empty, every operator *)
(* is square of the same power-of-two size d, there are at most d^2 of     *)
(* them, and sum_i w_i K_i^dagger K_i = N 1.                               *)
(* For kind "param" the case is a parameter of a documented channel, as a  *)
(* rational num/den: admissible iff 0 <= num/den <= 1 (and the three Pauli *)
(* probabilities sum to at most one).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
Case == Cases[cid]
IsPow2(k) == \E n \in 0..6 : 2^n = k
Log2(k) == CHOOSE n \in 0..6 : 2^n = k
Square(o) == o.rows = o.cols /\ IsPow2(o.rows)
D == Case.ops[1].rows
Shapes == /\ Case.ops # <<>>
          /\ \A i \in DOMAIN Case.ops : Square(Case.ops[i])
          /\ \A i \in DOMAIN Case.ops : Case.ops[i].rows = D
          /\ Len(Case.ops) <= D * D
Entry(o, r, c) == o.m[(r - 1) * o.cols + c]
RECURSIVE Acc(_, _, _, _)
\* entry (r, c) of the sum over i of w_i K_i^dagger K_i
Acc(i, k, r, c) ==
  IF i > Len(Case.ops) THEN << 0, 0 >>
  ELSE IF k > D THEN Acc(i + 1, 1, r, c)
  ELSE LET a == Entry(Case.ops[i], k, r)  b == Entry(Case.ops[i], k, c)  t == Acc(i, k + 1, r, c) IN
       << t[1] + Case.w[i] * (a[1]*b[1] + a[2]*b[2]), t[2] + Case.w[i] * (a[1]*b[2] - a[2]*b[1]) >>
TracePreserving == \A r \in 1..D : \A c \in 1..D : Acc(1, 1, r, c) = << IF r = c THEN Case.N ELSE 0, 0 >>
Probability(p) == p[1] >= 0 /\ p[1] <= p[2]
RECURSIVE SumP(_, _)
SumP(ps, i) == IF i > Len(ps) THEN 0 ELSE ps[i][1] + SumP(ps, i + 1)
Admissible == IF Case.k = "ops" THEN Shapes /\ TracePreserving
              ELSE /\ \A i \in DOMAIN Case.p : Probability(Case.p[i])
                   /\ SumP(Case.p, 1) <= Case.p[1][2]
Qubits == IF Case.k = "ops" THEN Log2(D) ELSE Case.nq
Clauses == << << "accepted-invalid", Case.ok = 1 => Admissible >>, << "rejected-valid", Admissible => Case.ok = 1 >>,
              << "size", Case.ok = 1 /\ Admissible => Case.rn = Qubits >> >>
Failed == {Clauses[i][1] : i \in {j \in DOMAIN Clauses : ~Clauses[j][2]}}
Init == cid \in DOMAIN Cases /\ verdict = "running"
Judge == /\ verdict = "running"
         /\ LET f == Failed IN
            /\ verdict' = IF f = {} THEN "ok" ELSE "bad"
            /\ IF f = {} THEN PrintT(ToJson([v |-> "K", id |-> Case.id]))
               ELSE \A c \in f : PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c]))
         /\ UNCHANGED cid
Next == Judge
Spec == Init /\ [][Next]_<< cid, verdict >>
=============================================================================
