------------------------------ MODULE GraphSim ------------------------------
(***************************************************************************)
(* The graph-state simulator.  The abstract state is the exact vector psi  *)
(* over the register reg; a concrete decorated graph (signs, loops, hollow *)
(* nodes) denotes a vector.  A recorded history gives the operations made  *)
(* on the real object and a snapshot of it after each one: after every     *)
(* step the snapshot must denote psi up to a scalar, and every reported    *)
(* outcome must be possible, and be the chosen one if both are.            *)
(***************************************************************************)
EXTENDS GSem, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, step, reg, psi, verdict
vars == << cid, step, reg, psi, verdict >>
Case == Cases[cid]
Steps == Case.steps
Op == Steps[step]
Pos(r, n) == (CHOOSE k \in DOMAIN r : r[k] = n) - 1
Positions(r, names) == [k \in DOMAIN names |-> Pos(r, names[k])]

\* binding an argument to an element of a set makes TLC evaluate it once
On(p, F(_)) == CHOOSE y \in {F(x) : x \in {p}} : TRUE
Flip(p, S) == On(p, LAMBDA x : FlipSign(x, S))
Turn(p, k, m) == On(p, LAMBDA x : Apply1(x, k, m))
RECURSIVE Plus(_)
Plus(n) == IF n = 0 THEN << [i \in 0..0 |-> 1], [i \in 0..0 |-> 0] >> ELSE On(Plus(n - 1), LAMBDA x : AddQubit(x, << One, One >>))
RECURSIVE Link(_, _, _, _)
Link(p, r, es, k) == IF k > Len(es) THEN p ELSE Link(Flip(p, {Pos(r, es[k][1]), Pos(r, es[k][2])}), r, es, k + 1)
RECURSIVE Dress(_, _, _, _, _)
Dress(p, r, ns, ms, k) == IF k > Len(ns) THEN p ELSE Dress(Turn(p, Pos(r, ns[k]), ms[k]), r, ns, ms, k + 1)
\* a graph whose nodes carry matrices (applied after the edges)
GraphWith(r, es, ns, ms) == Dress(Link(Plus(Len(r)), r, es, 1), r, ns, ms, 1)
\* the decorated graph: Z if negative, then S if looped, then H if hollow
RECURSIVE Each(_, _, _, _, _, _)
Each(p, r, ns, flags, g, k) == IF k > Len(ns) THEN p ELSE Each(IF flags[k] = 1 THEN Turn(p, Pos(r, ns[k]), g) ELSE p, r, ns, flags, g, k + 1)
Denote(r, s) == LET g == Link(Plus(Len(r)), r, s.edges, 1) IN
  Each(Each(Each(g, r, s.order, s.sign, GZ, 1), r, s.order, s.loop, GS, 1), r, s.order, s.hollow, GH, 1)

Parallel2(p, q) ==      \* p and q are proportional, neither is null
  /\ Size(p) = Size(q)
  /\ Norm2(q) # 0 /\ Norm2(p) # 0
  /\ LET k == CHOOSE i \in DOMAIN q[1] : Amp(q, i) # Zr IN
       \A i \in DOMAIN q[1] : GMul(Amp(p, i), Amp(q, k)) = GMul(Amp(q, i), Amp(p, k))
Parallel(p, q) == \A x \in {p} : \A y \in {q} : Parallel2(x, y)
Canon1(p) == On(p, LAMBDA v : DivBy(v, Content(v)))

\* what is wrong with a snapshot that should show the vector p over the register r
Wrong(r, p, s) ==
  IF Range(s.order) # Range(r) \/ Len(s.order) # Len(r) THEN "nodes"
  ELSE IF ~Parallel(p, Denote(r, s)) THEN "state"
  ELSE IF Range(s.alone) # { n \in Range(r) : \A e \in Range(s.edges) : n \notin Range(e) } THEN "isolated-nodes"
  ELSE IF "vec" \in DOMAIN s /\ ~Parallel(Unflat(Flat(p, Positions(r, s.order)), Len(r)), Unflat(s.vec, Len(r))) THEN "to_statevector"
  ELSE IF "vops" \in DOMAIN s /\ ~Parallel(p, GraphWith(r, s.edges, s.order, s.vops)) THEN "extract_vops"
  ELSE "ok"

Reject(c) == verdict' = "rejected" /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c, step |-> step, op |-> IF step = 0 THEN "new" ELSE Op.op]))
Settle(r, q) ==          \* the operation leads to q over r: look at the object
  \E p \in {q} : \E c \in {Wrong(r, p, IF step = 0 THEN Case.snap ELSE Op.snap)} :
  /\ reg' = r /\ psi' = p /\ UNCHANGED cid
  /\ step' = step + 1
  /\ IF c = "ok" THEN verdict' = "run" ELSE Reject(c)

Init == cid \in DOMAIN Cases /\ step = 0 /\ reg = <<>> /\ psi = Plus(0) /\ verdict = "run"
Run == verdict = "run" /\ step >= 1 /\ step <= Len(Steps)

New == /\ verdict = "run" /\ step = 0
       /\ Settle(Case.nodes, Canon1(GraphWith(Case.nodes, Case.edges, Case.vn, Case.vm)))
Rotate == /\ Run /\ Op.op \in {"h", "s", "z"}
          /\ Settle(reg, Canon1(Apply1(psi, Pos(reg, Op.n), CASE Op.op = "h" -> GH [] Op.op = "s" -> GS [] Op.op = "z" -> GZ)))
Vops == Run /\ Op.op = "vops" /\ Settle(reg, Canon1(Dress(psi, reg, Op.ns, Op.ms, 1)))
Insert == Run /\ Op.op = "add" /\ Settle(reg \o Op.ns, Canon1(TensorTop(psi, Plus(Len(Op.ns)))))
Before == IF step = 1 THEN Case.snap ELSE Steps[step - 1].snap
Edges2(es) == { Range(e) : e \in Range(es) }
\* when an operation may be asked for; otherwise it is refused and nothing changes
Looped(n) == Before.loop[Pos(Before.order, n) + 1] = 1
Applicable(k) == CASE k = "e1" -> Looped(Op.n)
                   [] k = "e2" -> {Op.n, Op.m} \in Edges2(Before.edges) /\ ~Looped(Op.n) /\ ~Looped(Op.m)
                   [] OTHER -> Op.choice \in 0..1
Equivalent == /\ Run /\ Op.op \in {"e1", "e2", "copy"}
              /\ IF Op.op # "copy" /\ ~Applicable(Op.op) THEN Reject("accepted-invalid") /\ UNCHANGED << cid, step, reg, psi >>
                 ELSE Settle(reg, psi)
Refused == /\ Run /\ Op.op = "refused"
           /\ IF Applicable(Op.what) THEN Reject("refused-valid") /\ UNCHANGED << cid, step, reg, psi >> ELSE Settle(reg, psi)
\* local complementation rewires the graph and leaves the decorations alone
Complement == /\ Run /\ Op.op = "lc"
              /\ LET es == Edges2(Before.edges)
                     nb == { m \in Range(reg) : {m, Op.n} \in es /\ m # Op.n }
                     tog == { {a, b} : a, b \in nb } \ { {a} : a \in nb }
                     now == (es \ tog) \cup (tog \ es)
                     s == [Before EXCEPT !.edges = SetToSeq({ SetToSeq(e) : e \in now })] IN
                 Settle(reg, Canon1(Denote(reg, s)))
Fill == /\ Run /\ Op.op = "fill"
        /\ LET k == Pos(Op.snap.order, Op.n) + 1  hollow == Op.snap.hollow[k]
               alone == \A e \in Range(Op.snap.edges) : Op.n \notin Range(e) IN
             IF (Op.res = 1) # (hollow = 1) \/ (Op.res # 0 /\ ~alone)
             THEN Reject("fill-result") /\ UNCHANGED << cid, step, reg, psi >>
             ELSE Settle(reg, psi)
Ket(b) == CASE Op.op = "mx" -> GKet("XY", << 0, 0 >>, b) [] Op.op = "my" -> GKet("XY", << 0, 1 >>, b) [] Op.op = "mz" -> GKet("YZ", << 0, 0 >>, b)
Measure == /\ Run /\ Op.op \in {"mx", "my", "mz"}
           /\ \E p \in {[b \in 0..1 |-> Project(psi, Pos(reg, Op.n), Ket(b))]} :
              IF ~Applicable(Op.op) THEN Reject("accepted-invalid") /\ UNCHANGED << cid, step, reg, psi >> ELSE
              LET possible == {b \in 0..1 : Norm2(p[b]) # 0} IN
                IF Op.res \notin possible THEN Reject("impossible-outcome") /\ UNCHANGED << cid, step, reg, psi >>
                ELSE IF Op.choice \in possible /\ Op.res # Op.choice THEN Reject("choice-ignored") /\ UNCHANGED << cid, step, reg, psi >>
                ELSE Settle(SelectSeq(reg, LAMBDA m : m # Op.n), Canon1(p[Op.res]))
Accept == /\ verdict = "run" /\ step = Len(Steps) + 1
          /\ verdict' = "accepted" /\ PrintT(ToJson([v |-> "K", id |-> Case.id])) /\ UNCHANGED << cid, step, reg, psi >>
Next == New \/ Rotate \/ Vops \/ Insert \/ Equivalent \/ Complement \/ Fill \/ Measure \/ Refused \/ Accept
Spec == Init /\ [][Next]_vars

\* the abstract state is always a stabiliser state: all non-zero amplitudes have the same modulus
Flatness == LET nz == {i \in DOMAIN psi[1] : Amp(psi, i) # Zr}
                m(i) == psi[1][i]*psi[1][i] + psi[2][i]*psi[2][i] IN \A i, j \in nz : m(i) = m(j)
=============================================================================
