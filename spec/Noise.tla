-------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* Noisy programs.  A noise model is a rule that surrounds each command    *)
(* with noise; a composition transforms the program by each rule in turn,  *)
(* so that a later model's noise is closer to the command.                 *)
(*   depol, damp : the provided models, with the channel parameters        *)
(*                 prep, ent, mch, x, z (records understood by Channels)   *)
(*   user        : an explicit list of rules [at, on, c, cond], at being   *)
(*                 "N+" (after N), "M-" (before M), "I" (input nodes), ... *)
(***************************************************************************)
EXTENDS Integers, Sequences
Chan(q, c, cond, d) == [k |-> "CH", q |-> q, c |-> c, cond |-> cond, d |-> d]
One1(m, p) == [p EXCEPT !.ch = IF m.kind = "depol" THEN "depol" ELSE "damp"]
Two1(m, p) == [p EXCEPT !.ch = IF m.kind = "depol" THEN "depol2" ELSE "damp2"]
Nodes(cmd) == IF cmd.k = "E" THEN << cmd.a, cmd.b >> ELSE << cmd.n >>
Dom(cmd) == IF cmd.k \in {"X", "Z"} THEN cmd.d ELSE <<>>
RECURSIVE UserRules(_, _, _, _)
UserRules(rules, at, cmd, i) ==
  IF i > Len(rules) THEN <<>>
  ELSE (IF rules[i].at = at THEN << Chan(Nodes(cmd), rules[i].c, rules[i].cond, Dom(cmd)) >> ELSE <<>>) \o UserRules(rules, at, cmd, i + 1)
Noisy(m, cmd) ==
  CASE m.kind = "user" -> IF cmd.k \in {"N", "E", "M", "X", "Z", "C"}
                          THEN UserRules(m.rules, cmd.k \o "-", cmd, 1) \o << cmd >> \o UserRules(m.rules, cmd.k \o "+", cmd, 1)
                          ELSE << cmd >>
    [] m.kind = "none" -> << cmd >>
    [] cmd.k = "N" -> << cmd, Chan(<< cmd.n >>, One1(m, m.prep), 0, <<>>) >>
    [] cmd.k = "E" -> << cmd, Chan(<< cmd.a, cmd.b >>, Two1(m, m.ent), 0, <<>>) >>
    [] cmd.k = "M" -> << Chan(<< cmd.n >>, One1(m, m.mch), 0, <<>>), cmd >>
    [] cmd.k = "X" -> << cmd, Chan(<< cmd.n >>, One1(m, m.x), 1, cmd.d) >>
    [] cmd.k = "Z" -> << cmd, Chan(<< cmd.n >>, One1(m, m.z), 1, cmd.d) >>
    [] OTHER -> << cmd >>
RECURSIVE Through(_, _, _)
Through(m, prog, i) == IF i > Len(prog) THEN <<>> ELSE Noisy(m, prog[i]) \o Through(m, prog, i + 1)
RECURSIVE Composed(_, _, _)
Composed(ms, prog, i) == IF i > Len(ms) THEN prog ELSE Composed(ms, Through(ms[i], prog, 1), i + 1)
\* noise of the input nodes, model after model
RECURSIVE OnInputs(_, _, _)
OnInputs(m, ins, i) ==
  IF i > Len(ins) THEN <<>>
  ELSE (CASE m.kind = "user" -> LET one == [k |-> "N", n |-> ins[i]] IN UserRules(m.rules, "I", one, 1)
          [] m.kind = "none" -> <<>>
          [] OTHER -> << Chan(<< ins[i] >>, One1(m, m.prep), 0, <<>>) >>) \o OnInputs(m, ins, i + 1)
RECURSIVE InputNoise(_, _, _)
InputNoise(ms, ins, i) == IF i > Len(ms) THEN <<>> ELSE OnInputs(ms[i], ins, 1) \o InputNoise(ms, ins, i + 1)
\* the first pre commands prepare the inputs; the others are the pattern
Expand(cmds, ms, ins, pre) ==
  SubSeq(cmds, 1, pre) \o InputNoise(ms, ins, 1) \o Composed(ms, SubSeq(cmds, pre + 1, Len(cmds)), 1)
=============================================================================
