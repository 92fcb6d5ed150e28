------------------------------- MODULE Alias -------------------------------
(***************************************************************************)
(* Ownership of mutable objects.  The heap maps names to values (tokens);  *)
(* names are disjoint objects: no operation is allowed to let one name be  *)
(* observed through another.                                               *)
(*                                                                         *)
(*  new      a fresh object appears                                        *)
(*  copy     a fresh object with the value of its argument                 *)
(*  pure     a function of the arguments: fresh objects, arguments kept    *)
(*  query    a report: nothing changes                                     *)
(*  leak     the user modifies a container that a report returned:         *)
(*           nothing changes                                               *)
(*  inplace  exactly one object changes (and is the one returned)          *)
(*                                                                         *)
(* A function f offered both ways (new object or in place) carries the     *)
(* same label: the machine remembers f(values) and requires the same       *)
(* result whichever way it is computed, whenever it is computed.           *)
(* After every step the observed values of all live objects, the shared    *)
(* library constants included, must be those of the machine.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, step, heap, memo, verdict
vars == << cid, step, heap, memo, verdict >>
Case == Cases[cid]
Steps == Case.steps
Op == Steps[step]
Map(s) == [x \in { s[k][1] : k \in DOMAIN s } |-> s[CHOOSE k \in DOMAIN s : s[k][1] = x][2]]

Run == verdict = "run" /\ step <= Len(Steps)
Is(k) == Run /\ Op.k = k
Reject(c) == verdict' = "rejected" /\ UNCHANGED << cid, step, heap, memo >> /\ PrintT(ToJson([v |-> "F", id |-> Case.id, c |-> c, step |-> step, op |-> Op.op]))
Advance == step' = step + 1 /\ UNCHANGED << cid, verdict >>
ArgValues == [k \in DOMAIN Op.args |-> heap[Op.args[k]]]
Key == << Op.label, ArgValues >>
Fresh == Op.new \cap DOMAIN heap = {}

\* the names an operation may change, and the heap it must leave otherwise
Frame(obs, changing) == \A n \in DOMAIN heap \ changing : n \in DOMAIN obs /\ obs[n] = heap[n]
Broken(obs, changing) == CHOOSE n \in DOMAIN heap \ changing : ~(n \in DOMAIN obs /\ obs[n] = heap[n])
\* the value of the result, and its agreement with what is known of the function
Agrees(v) == Op.label = "" \/ Key \notin DOMAIN memo \/ memo[Key] = v
Remember(v) == memo' = IF Op.label = "" THEN memo ELSE (Key :> v) @@ memo
Settle(changing, res) ==
  LET obs == Map(Op.obs) IN
  IF ~Frame(obs, changing) THEN
    Reject((IF Broken(obs, changing) = "library" THEN "constants" ELSE IF \E k \in DOMAIN Op.args : Op.args[k] = Broken(obs, changing) THEN "argument-changed" ELSE "other-object-changed") \o " " \o Op.op)
  ELSE IF DOMAIN obs # DOMAIN heap \cup { Op.new[k] : k \in DOMAIN Op.new } THEN Reject("names " \o Op.op)
  ELSE IF res # << >> /\ ~Agrees(obs[res[1]]) THEN Reject("in-place-differs " \o Op.op)
  ELSE /\ heap' = obs /\ Advance
       /\ IF res = << >> THEN UNCHANGED memo ELSE Remember(obs[res[1]])

New == Is("new") /\ Settle({}, << >>)
Copy == Is("copy") /\ (IF Map(Op.obs)[Op.new[1]] # heap[Op.args[1]] THEN Reject("copy-differs " \o Op.op) ELSE Settle({}, Op.new))
Pure == Is("pure") /\ Settle({}, Op.new)
Query == Is("query") /\ (IF Op.new # << >> THEN Reject("query") ELSE Settle({}, << >>))
Leak == Is("leak") /\ Settle({}, << >>)
InPlace == Is("inplace") /\ (IF Op.self = 0 THEN Reject("not-self " \o Op.op) ELSE Settle({Op.args[1]}, << Op.args[1] >>))
\* a refused operation must not disturb the other objects either
Refused == Is("refused") /\ Settle({ Op.mut[k] : k \in DOMAIN Op.mut }, << >>)
Done == /\ verdict = "run" /\ step > Len(Steps)
        /\ verdict' = "done" /\ UNCHANGED << cid, step, heap, memo >> /\ PrintT(ToJson([v |-> "K", id |-> Case.id]))

Init == cid \in DOMAIN Cases /\ step = 1 /\ heap = << >> /\ memo = << >> /\ verdict = "run"
Next == New \/ Copy \/ Pure \/ Query \/ Leak \/ InPlace \/ Refused \/ Done
Spec == Init /\ [][Next]_vars
TypeOK == verdict \in {"run", "done", "rejected"}
=============================================================================
