------------------------------ MODULE Channels ------------------------------
(***************************************************************************)
(* The documented noise channels as weighted lists of Kraus operators with *)
(* integer entries.  A channel is a record with its name, and parameters   *)
(* given as integers over the common denominator den:                      *)
(*   depol, depol2, depoltensor, deph : probability num/den                *)
(*   pauli                            : px, py, pz over den                *)
(*   damp, damp2                      : gamma = sn^2/hy^2 with a           *)
(*                                      Pythagorean triple cs, sn, hy      *)
(* Kraus(c) is a sequence of <<weight, <<matrix per qubit>>>>: the channel *)
(* is rho -> sum weight K rho K^dagger, up to a common positive factor.    *)
(***************************************************************************)
EXTENDS GSem
PN == << "I", "X", "Y", "Z" >>
Damp0(c) == << << c.hy, 0 >>, Zr, Zr, << c.cs, 0 >> >>
Damp1(c) == << Zr, << c.sn, 0 >>, Zr, Zr >>
Single(c) == << << 3*(c.den - c.num), GI >>, << c.num, GX >>, << c.num, GY >>, << c.num, GZ >> >>
Kraus(c) ==
  CASE c.ch = "deph" -> << << c.den - c.num, << GI >> >>, << c.num, << GZ >> >> >>
    [] c.ch = "depol" -> [i \in 1..4 |-> << Single(c)[i][1], << Single(c)[i][2] >> >>]
    [] c.ch = "pauli" -> << << c.den - c.px - c.py - c.pz, << GI >> >>, << c.px, << GX >> >>, << c.py, << GY >> >>, << c.pz, << GZ >> >> >>
    [] c.ch = "depol2" -> [i \in 1..16 |-> << IF i = 1 THEN 15*(c.den - c.num) ELSE c.num,
                                              << Pauli(PN[((i - 1) \div 4) + 1]), Pauli(PN[((i - 1) % 4) + 1]) >> >>]
    [] c.ch = "depoltensor" -> [i \in 1..16 |-> LET a == Single(c)[((i - 1) \div 4) + 1]  b == Single(c)[((i - 1) % 4) + 1] IN
                                                << a[1]*b[1], << a[2], b[2] >> >>]
    [] c.ch = "damp" -> << << 1, << Damp0(c) >> >>, << 1, << Damp1(c) >> >> >>
    [] c.ch = "damp2" -> << << 1, << Damp0(c), Damp0(c) >> >>, << 1, << Damp0(c), Damp1(c) >> >>,
                            << 1, << Damp1(c), Damp0(c) >> >>, << 1, << Damp1(c), Damp1(c) >> >> >>
\* the channel, on the positions ks of every member of an ensemble
RECURSIVE ApplyOps(_, _, _, _)
ApplyOps(psi, ks, ms, i) == IF i > Len(ks) THEN psi ELSE ApplyOps(Apply1(psi, ks[i], ms[i]), ks, ms, i + 1)
ApplyChannel(ens, ks, c) ==
  IF c.ch = "kraus"     \* explicit operators: weights c.w, matrices c.m on all the positions together
  THEN ReduceEns(Gather({ << << p, i >>, ens[p] * c.w[i], Canon(ApplyN(p, ks, c.m[i])) >> : p \in DOMAIN ens, i \in DOMAIN c.w }))
  ELSE LET K == Kraus(c) IN
  ReduceEns(Gather({ << << p, i >>, ens[p] * K[i][1], Canon(ApplyOps(p, ks, K[i][2], 1)) >> :
                       p \in DOMAIN ens, i \in {j \in DOMAIN K : K[j][1] > 0} }))
\* trace preservation of the lists above: sum w K^dagger K is a multiple of the identity (checked on one sample per kind)
MM(a, b) == LET e(x, y) == << x[1] + y[1], x[2] + y[2] >> IN
  << e(GMul(a[1], b[1]), GMul(a[2], b[3])), e(GMul(a[1], b[2]), GMul(a[2], b[4])),
     e(GMul(a[3], b[1]), GMul(a[4], b[3])), e(GMul(a[3], b[2]), GMul(a[4], b[4])) >>
Dag(m) == << GConj(m[1]), GConj(m[3]), GConj(m[2]), GConj(m[4]) >>
TP1(c) == LET K == Kraus(c)
              s(j) == Sum([i \in DOMAIN K |-> K[i][1] * MM(Dag(K[i][2][1]), K[i][2][1])[j][1]], DOMAIN K) IN s(1) = s(4) /\ s(2) = 0 /\ s(3) = 0 /\ s(1) > 0
ASSUME TracePreserving ==
  /\ TP1([ch |-> "deph", num |-> 1, den |-> 3]) /\ TP1([ch |-> "depol", num |-> 3, den |-> 8])
  /\ TP1([ch |-> "pauli", px |-> 1, py |-> 2, pz |-> 3, den |-> 8]) /\ TP1([ch |-> "damp", cs |-> 3, sn |-> 4, hy |-> 5])
=============================================================================
