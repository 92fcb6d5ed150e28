------------------------------- MODULE Fusion -------------------------------
(***************************************************************************)
(* Building a graph state by fusing small resource states.  The machine    *)
(* starts from the vertices alone; each step supplies one resource state   *)
(* of the recorded decomposition, checks that it is a state the hardware   *)
(* can produce (a star or a chain within the size limits) and adds its     *)
(* edges, none of which may be there already; a fusion identifies the      *)
(* copies of a vertex held by two resource states.  At the end every copy  *)
(* must have been fused and the graph must be the wanted one.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, k, built, holders, links, verdict
vars == << cid, k, built, holders, links, verdict >>
Case == Cases[cid]
Res == Case.resources
R == Res[k]
Rng(s) == { s[q] : q \in DOMAIN s }
Pairs(s) == { Rng(s[q]) : q \in DOMAIN s }
Nodes == Rng(Case.nodes)
Edges == Pairs(Case.edges)
\* the limit 0 stands for no limit
Within(n, limit) == limit = 0 \/ n <= limit
Deg(E, v) == Cardinality({ e \in E : v \in e })

RECURSIVE Reach(_, _)
Reach(S, E) == LET T == S \cup UNION { e \in E : e \cap S # {} } IN IF T = S THEN S ELSE Reach(T, E)
Connected(N, E) == N # {} /\ Reach({CHOOSE v \in N : TRUE}, E) = N
Star(N, E) == Cardinality(E) = Cardinality(N) - 1 /\ (N # {} /\ \E c \in N : \A e \in E : c \in e)
Chain(N, E) == Connected(N, E) /\ Cardinality(E) = Cardinality(N) - 1 /\ \A v \in N : Deg(E, v) <= 2

Wrong(r) ==
  LET N == Rng(r.nodes) E == Pairs(r.edges) n == Cardinality(N) IN
  IF n # Len(r.nodes) \/ Cardinality(E) # Len(r.edges) \/ \E e \in E : Cardinality(e) # 2 \/ ~(e \subseteq N) THEN "malformed"
  ELSE IF ~(N \subseteq Nodes) THEN "unknown-node"
  ELSE IF ~(E \subseteq Edges) THEN "unknown-edge"
  ELSE IF E \cap built # {} THEN "edge-twice"
  ELSE IF E = {} /\ (n # 1 \/ \E e \in Edges : N \cap e # {}) THEN "useless-resource"
  ELSE IF r.type = "GHZ" THEN (IF ~Star(N, E) THEN "not-a-star" ELSE IF ~(Within(n, Case.ghz) \/ (n <= 3 /\ Within(n, Case.lin))) THEN "ghz-too-large" ELSE "")
  ELSE IF r.type = "LINEAR" THEN (IF ~Chain(N, E) THEN "not-a-chain" ELSE IF ~(Within(n, Case.lin) \/ (n <= 3 /\ Within(n, Case.ghz))) THEN "chain-too-long" ELSE "")
  ELSE "type"

Reject(c) == verdict' = "rejected" /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c, k |-> k])) /\ UNCHANGED << cid, k, built, holders, links >>
Init == cid \in DOMAIN Cases /\ k = 1 /\ built = {} /\ holders = << >> /\ links = {} /\ verdict = "supply"

Holders(v) == IF v \in DOMAIN holders THEN holders[v] ELSE {}
Supply ==
  /\ verdict = "supply" /\ k <= Len(Res)
  /\ IF Wrong(R) # "" THEN Reject(Wrong(R))
     ELSE /\ built' = built \cup Pairs(R.edges)
          /\ holders' = [v \in DOMAIN holders \cup Rng(R.nodes) |-> Holders(v) \cup (IF v \in Rng(R.nodes) THEN {k} ELSE {})]
          /\ k' = k + 1 /\ UNCHANGED << cid, links, verdict >>
Supplied == verdict = "supply" /\ k > Len(Res) /\ k' = 1 /\ verdict' = "fuse" /\ UNCHANGED << cid, built, holders, links >>

\* the recorded links between two resource states are exactly the vertices both hold
Fuse ==
  /\ verdict = "fuse" /\ k <= Len(Case.fusions)
  /\ LET f == Case.fusions[k] shared == { v \in DOMAIN holders : {f.a, f.b} \subseteq holders[v] } IN
     IF f.a = f.b THEN (IF f.nodes # << >> THEN Reject("self-fusion") ELSE k' = k + 1 /\ UNCHANGED << cid, built, holders, links, verdict >>)
     ELSE IF Rng(f.nodes) # shared \/ Len(f.nodes) # Cardinality(shared) THEN Reject("fusion-links")
     ELSE /\ links' = links \cup { << v, {f.a, f.b} >> : v \in Rng(f.nodes) } /\ k' = k + 1 /\ UNCHANGED << cid, built, holders, verdict >>
Finish ==
  /\ verdict = "fuse" /\ k > Len(Case.fusions)
  /\ IF built # Edges THEN Reject("edges-missing")
     ELSE IF DOMAIN holders # Nodes THEN Reject("nodes-missing")
     ELSE IF \E v \in DOMAIN holders : \E a, b \in holders[v] : a # b /\ << v, {a, b} >> \notin links THEN Reject("unfused")
     ELSE IF Case.kept = 0 THEN Reject("graph-changed")
     ELSE verdict' = "accepted" /\ PrintT(ToJson([v |-> "K", id |-> Case.id])) /\ UNCHANGED << cid, k, built, holders, links >>
Next == Supply \/ Supplied \/ Fuse \/ Finish
Spec == Init /\ [][Next]_vars
Sane == built \subseteq Edges /\ \A v \in DOMAIN holders : v \in Nodes
=============================================================================
