--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* The simulator machine: commands executed one by one on an exact         *)
(* ensemble of unnormalised vectors, all measurement outcomes and all      *)
(* readout flips explored.  Each complete behaviour is printed with the    *)
(* probabilities met on the way and the exact final state, and is then     *)
(* replayed by the implementation.                                         *)
(*                                                                         *)
(* Names in commands are node names; with pos = 1 they are positions in    *)
(* the register at that moment (a state's qubit indices).                  *)
(***************************************************************************)
EXTENDS Channels, Noise, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, reg, ens, outs, log
vars == << cid, pc, reg, ens, outs, log >>
Case == Cases[cid]
\* the program that runs: with the noise of the case's models around the commands
Progs == [i \in DOMAIN Cases |-> LET c == Cases[i] IN IF "models" \in DOMAIN c THEN Expand(c.cmds, c.models, c.ins, c.pre) ELSE c.cmds]
Cmd == Progs[cid][pc]
Nm(x) == IF Case.pos = 1 THEN reg[x + 1] ELSE x
Pos(n) == (CHOOSE k \in DOMAIN reg : reg[k] = n) - 1
At(x) == Pos(Nm(x))
Parity(d) == Cardinality({i \in DOMAIN d : outs[d[i]] = 1}) % 2
Ang(c) == << c.a[1], c.a[2] >>
Outs0 == <<>>

Init ==
  /\ cid \in DOMAIN Cases
  /\ pc = 1
  /\ reg = <<>>
  /\ ens = ( << [i \in 0..0 |-> 1], [i \in 0..0 |-> 0] >> :> 1 )
  /\ outs = Outs0
  /\ log = <<>>

Running == pc <= Len(Progs[cid])
Skip == pc' = pc + 1
Advance == pc' = pc + 1 /\ UNCHANGED << cid, outs, log >>
Update(Op(_)) == ens' = MapEns(ens, Op) /\ UNCHANGED reg /\ Advance

\* ---- preparations
Add ==      \* nodes in product of planar states or with explicit amplitudes
  /\ Running /\ Cmd.k \in {"N", "IN"}
  /\ LET phi == IF Cmd.k = "N" THEN LET v == GKet(Cmd.st[1], << Cmd.st[2], Cmd.st[3] >>, 0) IN
                                    << [i \in 0..1 |-> v[i + 1][1]], [i \in 0..1 |-> v[i + 1][2]] >>
                ELSE Unflat(Cmd.amp, Len(Cmd.ns))
         ns == IF Cmd.k = "N" THEN << Cmd.n >> ELSE Cmd.ns
         Op(p) == TensorTop(p, phi) IN
     /\ ens' = MapEns(ens, Op)
     /\ reg' = reg \o ns
  /\ Advance

\* ---- unitaries
Gate2(p, c) ==
  LET q(i) == At(c.q[i]) IN
  CASE c.g = "CNOT" -> FlipX(p, q(2), {q(1)})
    [] c.g = "CCX" -> FlipX(p, q(3), {q(1), q(2)})
    [] c.g = "CZ" -> FlipSign(p, {q(1), q(2)})
    [] c.g = "SWAP" -> SwapPos(p, q(1), q(2))
    [] c.g = "RZZ" -> FlipX(Apply1(FlipX(p, q(2), {q(1)}), q(2), GRZ(Ang(c))), q(2), {q(1)})
    [] c.g = "RX" -> Apply1(p, q(1), GRX(Ang(c)))
    [] c.g = "RY" -> Apply1(p, q(1), GRY(Ang(c)))
    [] c.g = "RZ" -> Apply1(p, q(1), GRZ(Ang(c)))
    [] c.g = "J" -> Apply1(p, q(1), GJ(Ang(c)))
    [] c.g = "H" -> Apply1(p, q(1), GH)
    [] c.g = "S" -> Apply1(p, q(1), GS)
    [] c.g = "X" -> Apply1(p, q(1), GX)
    [] c.g = "Y" -> Apply1(p, q(1), GY)
    [] c.g = "Z" -> Apply1(p, q(1), GZ)
    [] c.g = "I" -> p
Entangle == /\ Running /\ Cmd.k = "E"
            /\ LET Op(p) == FlipSign(p, {At(Cmd.a), At(Cmd.b)}) IN Update(Op)
Gate == /\ Running /\ Cmd.k = "G"
        /\ LET Op(p) == Gate2(p, Cmd) IN Update(Op)
Matrix1 == /\ Running /\ Cmd.k = "C"
           /\ LET Op(p) == Apply1(p, At(Cmd.n), Cmd.m) IN Update(Op)
MatrixN == /\ Running /\ Cmd.k = "OP"
           /\ LET ks == [i \in DOMAIN Cmd.q |-> At(Cmd.q[i])]
                  Op(p) == ApplyN(p, ks, Cmd.m) IN Update(Op)
Correct ==
  /\ Running /\ Cmd.k \in {"X", "Z"}
  /\ IF Parity(Cmd.d) = 1
     THEN LET Op(p) == IF Cmd.k = "X" THEN FlipX(p, At(Cmd.n), {}) ELSE FlipSign(p, {At(Cmd.n)}) IN Update(Op)
     ELSE Advance /\ UNCHANGED << ens, reg >>

\* ---- the register itself
Exchange ==     \* two positions trade places (the state is renamed)
  /\ Running /\ Cmd.k = "SWAP"
  /\ LET Op(p) == SwapPos(p, At(Cmd.a), At(Cmd.b)) IN Update(Op)
Permute ==      \* position i receives what was at position perm[i]
  /\ Running /\ Cmd.k = "PERM"
  /\ reg' = [i \in DOMAIN reg |-> reg[Cmd.p[i] + 1]]
  /\ LET RECURSIVE src(_, _)
         src(i, k) == IF k > Len(reg) THEN 0 ELSE Bit(i, k - 1) * Pow2(Cmd.p[k]) + src(i, k + 1)
         Op(p) == << [i \in DOMAIN p[1] |-> p[1][src(i, 1)]], [i \in DOMAIN p[1] |-> p[2][src(i, 1)]] >> IN
     ens' = MapEns(ens, Op)
  /\ Advance

\* ---- measurements
Drop(n) == SelectSeq(reg, LAMBDA m : m # n)
Branch(n, pl, a, s, t, b) ==        \* unnormalised ensemble after X^s Z^t and projection on outcome b
  LET k == Pos(n)
      pre(p) == LET q == IF t = 1 THEN FlipSign(p, {k}) ELSE p IN IF s = 1 THEN FlipX(q, k, {}) ELSE q
      Op(p) == Project(pre(p), k, GKet(pl, a, b)) IN MapEns(ens, Op)
Flips(f) == CASE f = 0 -> {0} [] f = 1 -> {0, 1} [] f = 2 -> {1}     \* readout: exact, unreliable, inverted
Forced(n) == {Case.force[i][2] : i \in {j \in DOMAIN Case.force : Case.force[j][1] = n}}
Measure ==
  /\ Running /\ Cmd.k = "M"
  /\ LET n == Nm(Cmd.n)
         s == Parity(Cmd.s)  t == Parity(Cmd.t)
         e == [b \in 0..1 |-> Branch(n, Cmd.pl, Ang(Cmd), s, t, b)]
         w == [b \in 0..1 |-> Weight(e[b])] IN
     \E b \in 0..1 : \E fl \in Flips(Cmd.fl) :
       /\ w[b] # 0
       /\ Forced(n) = {} \/ b \in Forced(n)
       /\ ens' = ReduceEns(e[b])
       /\ reg' = Drop(n)
       /\ outs' = (n :> ((b + fl) % 2)) @@ outs
       /\ log' = Append(log, << "M", n, b, (b + fl) % 2, w[0], w[1] >>)
  /\ Skip /\ UNCHANGED cid
Trace ==        \* discard a qubit
  /\ Running /\ Cmd.k = "TR"
  /\ LET n == Nm(Cmd.n)
         k == Pos(n)
         E0 == UNION { { << << p, b >>, ens[p], Canon(Project(p, k, GKet("YZ", << 0, 0 >>, b))) >> : b \in 0..1 } : p \in DOMAIN ens } IN
     /\ ens' = ReduceEns(Gather(E0))
     /\ reg' = Drop(n)
  /\ Advance

\* ---- noise
Channel ==
  /\ Running /\ Cmd.k = "CH"
  /\ IF Cmd.cond = 0 \/ Parity(Cmd.d) = 1
     THEN ens' = ApplyChannel(ens, [i \in DOMAIN Cmd.q |-> At(Cmd.q[i])], Cmd.c) /\ UNCHANGED reg
     ELSE UNCHANGED << ens, reg >>
  /\ Advance

Tick == Running /\ Cmd.k = "T" /\ Advance /\ UNCHANGED << ens, reg >>      \* clock of the hardware: no effect

\* ---- queries
Expect ==       \* expectation value of an operator: numerator and denominator
  /\ Running /\ Cmd.k = "EXP"
  /\ LET ks == [i \in DOMAIN Cmd.q |-> At(Cmd.q[i])]
         v == [p \in DOMAIN ens |-> Inner(p, ApplyN(p, ks, Cmd.m), Size(p) - 1)]
         re == Sum([p \in DOMAIN ens |-> ens[p] * v[p][1]], DOMAIN ens)
         im == Sum([p \in DOMAIN ens |-> ens[p] * v[p][2]], DOMAIN ens) IN
     log' = Append(log, << "E", re, im, Weight(ens) >>)
  /\ Skip /\ UNCHANGED << cid, reg, ens, outs >>
Overlap ==      \* overlap with a given vector
  /\ Running /\ Cmd.k = "FID"
  /\ LET phi == Unflat(Cmd.amp, Len(reg))
         v == [p \in DOMAIN ens |-> LET z == Inner(phi, p, Size(p) - 1) IN ens[p] * (z[1]*z[1] + z[2]*z[2])] IN
     log' = Append(log, << "F", Sum(v, DOMAIN ens), Weight(ens), Norm2(phi) >>)
  /\ Skip /\ UNCHANGED << cid, reg, ens, outs >>

Final == IF Case.outs = <<-1>> THEN [i \in DOMAIN reg |-> i - 1] ELSE [i \in DOMAIN Case.outs |-> Pos(Case.outs[i])]
Finish ==
  /\ pc = Len(Progs[cid]) + 1
  /\ pc' = pc + 1
  /\ LET S == SetToSeq(DOMAIN ens) IN
     PrintT(ToJson([v |-> "G", id |-> Case.id, log |-> log, w |-> [i \in DOMAIN S |-> ens[S[i]]],
                    amp |-> [i \in DOMAIN S |-> Flat(S[i], Final)]]))
  /\ UNCHANGED << cid, reg, ens, outs, log >>

Next == Add \/ Entangle \/ Gate \/ Matrix1 \/ MatrixN \/ Correct \/ Exchange \/ Permute \/ Measure \/ Trace \/ Channel \/ Tick \/ Expect \/ Overlap \/ Finish
Spec == Init /\ [][Next]_vars

\* structural invariants of the machine
WellFormed == /\ Cardinality({reg[i] : i \in DOMAIN reg}) = Len(reg)
              /\ \A p \in DOMAIN ens : ens[p] > 0 /\ Size(p) = Pow2(Len(reg)) /\ ~IsNull(p)
              /\ DOMAIN ens # {}
=============================================================================
