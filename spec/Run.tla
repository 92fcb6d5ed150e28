--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* The run protocol: how a simulator drives its parties (back end, branch  *)
(* selector, measure method, noise model) while it executes a pattern.     *)
(* The machine reads a recorded history of calls; every recorded call must *)
(* be the one the protocol makes next, with the arguments it determines:   *)
(*   - inputs first, then the commands in order;                           *)
(*   - a measurement is described with the command's own domains evaluated *)
(*     on the recorded outcomes, offered to the selector once, confused    *)
(*     once by the noise model, and stored once under its node;            *)
(*   - corrections and conditional noise act iff their domain is odd;      *)
(*   - the selected outcome is the one the selection dictates;             *)
(*   - the results given beforehand are used and left as they were given;   *)
(*   - every party receives the generator given by the caller.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pc, i, phase, out, store, done
vars == << cid, pc, i, phase, out, store, done >>
Case == Cases[cid]
Prog == Case.cmds
Trace == Case.trace
Cmd == Prog[pc]
Ev == Trace[i]
More == i <= Len(Trace)
Range(s) == {s[k] : k \in DOMAIN s}

\* ---- measurement bases, angles in units of pi/4
Norm(m) ==
  LET a == m.a % 8
      cosax == CASE m.pl = "XY" -> "X" [] OTHER -> "Z"
      sinax == CASE m.pl = "XZ" -> "X" [] OTHER -> "Y" IN
  CASE m.pl = "X" -> << "X", m.a >> [] m.pl = "Y" -> << "Y", m.a >> [] m.pl = "Z" -> << "Z", m.a >>
    [] a % 2 = 1 -> << m.pl, a >>
    [] a = 0 -> << cosax, 0 >> [] a = 4 -> << cosax, 1 >> [] a = 2 -> << sinax, 0 >> [] a = 6 -> << sinax, 1 >>
Neg(a) == (8 - (a % 8)) % 8
Turn(m, pl, s) ==           \* the basis met when the qubit first undergoes the Pauli s
  IF pl \in {"X", "Y", "Z"} THEN [pl |-> pl, a |-> IF pl = s THEN m.a ELSE 1 - m.a]
  ELSE [pl |-> pl, a |-> CASE pl = "XY" /\ s = "X" -> Neg(m.a) [] pl = "XY" /\ s = "Z" -> (m.a + 4) % 8
                           [] pl = "YZ" /\ s = "X" -> (m.a + 4) % 8 [] pl = "YZ" /\ s = "Z" -> Neg(m.a)
                           [] pl = "XZ" /\ s = "X" -> (Neg(m.a) + 4) % 8 [] pl = "XZ" /\ s = "Z" -> Neg(m.a)]
Parity(d) == Cardinality({k \in DOMAIN d : store[d[k]] = 1}) % 2
Basis(c) == LET m0 == [pl |-> c.pl, a |-> c.a]
                m1 == IF Parity(c.s) = 1 THEN Turn(m0, c.pl, "X") ELSE m0
            IN IF Parity(c.t) = 1 THEN Turn(m1, c.pl, "Z") ELSE m1

\* ---- what a selection allows: a chain of tables ended by a constant, by chance or by nothing
RECURSIVE Allowed(_, _)
Allowed(sel, n) ==
  CASE sel.k = "const" -> {sel.b}
    [] sel.k = "any" -> {0, 1}
    [] sel.k = "none" -> {}
    [] sel.k = "table" -> LET hit == {sel.t[x][2] : x \in {y \in DOMAIN sel.t : sel.t[y][1] = n}} IN IF hit # {} THEN hit ELSE Allowed(sel.d, n)
Flip(n) == IF \E x \in DOMAIN Case.conf : Case.conf[x] = n THEN 1 ELSE 0

Init == cid \in DOMAIN Cases /\ pc = 0 /\ i = 1 /\ phase = "cmd" /\ out = 0
        /\ store = [n \in {Case.pre[x][1] : x \in DOMAIN Case.pre} |-> LET x == CHOOSE y \in DOMAIN Case.pre : Case.pre[y][1] = n IN Case.pre[x][2]]
        /\ done = "run"

Live == done = "run"
\* ---- the calls expected in the present state
At(k) == Live /\ phase = "cmd" /\ pc >= 1 /\ pc <= Len(Prog) /\ Cmd.k \in k
Said(k) == More /\ Ev.k = k /\ (k \in {"sel", "conf", "add", "meas"} => Ev.g = 1)
Next1 == i' = i + 1
Stay(v) == UNCHANGED v

Inputs ==
  /\ Live /\ pc = 0
  /\ IF Case.input = 1 THEN Said("add") /\ Ev.q = Case.ins /\ Ev.d = Case.indata /\ Next1 ELSE UNCHANGED i
  /\ pc' = 1 /\ UNCHANGED << cid, phase, out, store, done >>
Prepare == /\ At({"N"}) /\ Said("add") /\ Ev.q = << Cmd.n >> /\ Ev.d = Cmd.d
           /\ Next1 /\ pc' = pc + 1 /\ UNCHANGED << cid, phase, out, store, done >>
Entangle == /\ At({"E"}) /\ Said("E") /\ Range(Ev.q) = {Cmd.a, Cmd.b} /\ Len(Ev.q) = 2
            /\ Next1 /\ pc' = pc + 1 /\ UNCHANGED << cid, phase, out, store, done >>
Describe == /\ At({"M"}) /\ Said("meas") /\ Ev.q = << Cmd.n >>
            /\ Norm([pl |-> Ev.pl, a |-> Ev.a]) = Norm(Basis(Cmd))
            /\ Next1 /\ phase' = "select" /\ UNCHANGED << cid, pc, out, store, done >>
Select == /\ Live /\ phase = "select" /\ Said("sel") /\ Ev.q = << Cmd.n >> /\ Ev.b \in Allowed(Case.sel, Cmd.n)
          /\ out' = Ev.b /\ Next1 /\ phase' = (IF Case.noisy = 1 THEN "confuse" ELSE "store") /\ UNCHANGED << cid, pc, store, done >>
Confuse == /\ Live /\ phase = "confuse" /\ Said("conf") /\ Ev.q = << Cmd.n >> /\ Ev.b = out /\ Ev.r \in (IF Case.free = 1 THEN {0, 1} ELSE {(out + Flip(Cmd.n)) % 2})
           /\ out' = Ev.r /\ Next1 /\ phase' = "store" /\ UNCHANGED << cid, pc, store, done >>
Store == /\ Live /\ phase = "store" /\ Said("store") /\ Ev.q = << Cmd.n >> /\ Ev.b = out
         /\ store' = (Cmd.n :> out) @@ store
         /\ Next1 /\ phase' = "cmd" /\ pc' = pc + 1 /\ UNCHANGED << cid, out, done >>
Correct == /\ At({"X", "Z"}) /\ Parity(Cmd.d) = 1 /\ Said(Cmd.k) /\ Ev.q = << Cmd.n >>
           /\ Next1 /\ pc' = pc + 1 /\ UNCHANGED << cid, phase, out, store, done >>
Pass == /\ At({"X", "Z", "A", "T"})
        /\ Cmd.k = "T" \/ (Cmd.k \in {"X", "Z"} /\ Parity(Cmd.d) = 0) \/ (Cmd.k = "A" /\ Cmd.cond = 1 /\ Parity(Cmd.d) = 0)
        /\ pc' = pc + 1 /\ UNCHANGED << cid, i, phase, out, store, done >>
Rotate == /\ At({"C"}) /\ Said("C") /\ Ev.q = << Cmd.n >> /\ Ev.d = Cmd.d
          /\ Next1 /\ pc' = pc + 1 /\ UNCHANGED << cid, phase, out, store, done >>
Noise == /\ At({"A"}) /\ (Cmd.cond = 0 \/ Parity(Cmd.d) = 1) /\ Said("A") /\ Ev.q = Cmd.q /\ Ev.d = Cmd.id
         /\ Next1 /\ pc' = pc + 1 /\ UNCHANGED << cid, phase, out, store, done >>
Finish == /\ Live /\ phase = "cmd" /\ pc = Len(Prog) + 1 /\ Said("fin") /\ Ev.q = Case.outs /\ i = Len(Trace)
          /\ Next1 /\ done' = "finished" /\ UNCHANGED << cid, pc, phase, out, store >>

Proceed == Inputs \/ Prepare \/ Entangle \/ Describe \/ Select \/ Confuse \/ Store \/ Correct \/ Pass \/ Rotate \/ Noise \/ Finish
Stuck == /\ Live /\ ~ENABLED Proceed
         /\ done' = "stuck" /\ UNCHANGED << cid, pc, i, phase, out, store >>
         /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> "protocol-" \o phase, pc |-> pc, at |-> i, ev |-> IF More THEN Trace[i] ELSE [k |-> "end"]]))
\* ---- after the run: reported outcomes, and a second run with an equal seed
Results == {<< Case.final[x][1], Case.final[x][2] >> : x \in DOMAIN Case.final}
Report ==
  /\ done = "finished"
  /\ done' = "reported" /\ UNCHANGED << cid, pc, i, phase, out, store >>
  /\ IF Results # {<< n, store[n] >> : n \in DOMAIN store} THEN PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> "reported-outcomes"]))
     ELSE IF Case.kept # Case.pre THEN PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> "given-results-altered"]))
     ELSE IF Case.again # << >> /\ Case.again # Trace THEN PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> "not-reproducible"]))
     ELSE PrintT(ToJson([v |-> "K", id |-> Case.id]))
Next == Proceed \/ Stuck \/ Report
Spec == Init /\ [][Next]_vars

\* every measured node is stored exactly when its command has been executed, and nothing else is
Recorded == done # "stuck" => LET ms == {Prog[k].n : k \in {j \in 1..(pc - 1) : Prog[j].k = "M"}} IN
              DOMAIN store = ms \cup {Case.pre[x][1] : x \in DOMAIN Case.pre}
=============================================================================
