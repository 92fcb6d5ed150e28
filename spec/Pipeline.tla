------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Sequences of rewriting passes.  The abstract state of a pattern is the  *)
(* set of facts its owner may rely on; each documented pass establishes    *)
(* some facts, keeps some and gives up the others.  TLC enumerates every   *)
(* sequence over an alphabet of passes and prints, after each pass, the    *)
(* facts that must hold; each sequence is replayed on real patterns, every *)
(* fact is looked up on the real object, and the pattern that comes out is *)
(* compared with the one that went in on the machine of MBQC.tla.          *)
(*                                                                         *)
(*  std      commands in the order N, E, M, then X/Z/C                     *)
(*  strict   and all C after all X/Z                                       *)
(*  sig      no measurement depends on a signal that shifting removes      *)
(*  noC      no local Clifford command                                     *)
(*  bloch    every measurement is a Bloch measurement                      *)
(*  inferred no Bloch measurement has a Pauli angle                        *)
(*  gone     no removable Pauli measurement is left                        *)
(*  one      no domain has more than one node                              *)
(*  nox      no +X (+Z) measurement has an s (t) domain                    *)
(*  noin     no input node                                                 *)
(*  pushed   Pauli measurements come first and depend on nothing           *)
(*  layered  measurements are made in rounds                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CASES)[1]     \* [passes : Seq(STRING), len : Nat, init : Seq(STRING)]
Rng(s) == {s[i] : i \in DOMAIN s}
Facts == {"std", "strict", "sig", "noC", "bloch", "inferred", "gone", "one", "nox", "noin", "pushed", "layered"}

VARIABLES facts, path
vars == << facts, path >>

\* facts about the measurements themselves, whatever their order and domains
Kinds == {"noC", "bloch", "inferred", "noin"}
\* facts that putting commands in standard order cannot break when they are already so ordered
Calm(f) == IF "std" \in f THEN {"sig", "nox", "gone"} ELSE {}

After(p, f) ==
  CASE p \in {"standardize", "optimize"} -> (f \cap (Kinds \cup Calm(f) \cup (IF "std" \in f THEN {"pushed", "layered"} ELSE {}))) \cup {"std", "strict"}
    [] p \in {"shift", "shift mc"} -> (f \cap (Kinds \cup {"std", "strict", "gone", "nox", "pushed"})) \cup {"sig"}
    [] p \in {"infer", "infer copy"} -> (f \cap {"std", "strict", "noC", "noin", "one", "layered"}) \cup {"inferred"}
    [] p \in {"bloch", "bloch copy"} -> (f \cap {"std", "strict", "noC", "noin", "one", "layered"}) \cup {"bloch"}
    [] p \in {"push", "push copy"} -> ((f \cap (Kinds \cup Calm(f))) \ {"sig", "nox"}) \cup {"pushed"}
    [] p = "push standard" -> ((f \cap (Kinds \cup Calm(f))) \ {"sig", "nox"}) \cup {"pushed", "std", "strict"}
    [] p \in {"remove", "remove copy"} -> (f \cap {"bloch", "inferred", "noin"}) \cup {"gone"}
    [] p = "remove standard" -> (f \cap {"bloch", "inferred", "noin"}) \cup {"gone", "std", "strict"}
    [] p \in {"unclifford", "unclifford copy"} -> IF "noC" \in f THEN f ELSE (f \cap {"inferred", "noin"}) \cup {"noC"}
    [] p = "parallel" -> (f \cap (Kinds \cup Calm(f) \cup (IF "std" \in f THEN {"one"} ELSE {}))) \cup {"layered"}
    [] p \in {"space", "space copy", "space degree"} -> f \cap (Kinds \cup Calm(f))
    [] p \in {"space same", "space optimal"} -> f \cap (Kinds \cup Calm(f) \cup (IF "std" \in f THEN {"pushed"} ELSE {}))
    [] p \in {"reindex", "reindex copy", "copy"} -> f
    [] p = "useless" -> (f \ {"layered"}) \cup {"nox"}
    [] p = "single" -> IF "one" \in f THEN f ELSE (f \cap (Kinds \cup {"gone", "nox", "sig", "pushed"})) \cup {"one"}
    [] p = "inputs" -> IF "noin" \in f THEN f ELSE (f \ {"gone"}) \cup {"noin"}
    [] p = "corrections" -> f \cap (Kinds \cup Calm(f))

Emit == PrintT(ToJson([v |-> "G", id |-> "g", p |-> path']))

Init == facts = Rng(Conf.init) /\ path = <<>>
Do(p) ==
  /\ p \in Rng(Conf.passes) /\ Len(path) < Conf.len
  /\ facts' = After(p, facts)
  /\ path' = Append(path, [p |-> p, f |-> facts'])
  /\ Len(path') = Conf.len => Emit
Order == \E p \in {"standardize", "optimize", "parallel", "space", "space copy", "space degree", "space same", "space optimal", "corrections"} : Do(p)
Signals == \E p \in {"shift", "shift mc", "useless", "single"} : Do(p)
Represent == \E p \in {"infer", "infer copy", "bloch", "bloch copy", "reindex", "reindex copy", "copy", "inputs"} : Do(p)
Simplify == \E p \in {"push", "push copy", "push standard", "remove", "remove copy", "remove standard", "unclifford", "unclifford copy"} : Do(p)
Next == Order \/ Signals \/ Represent \/ Simplify
Spec == Init /\ [][Next]_vars

TypeOK == facts \subseteq Facts
StrictIsStd == "strict" \in facts => "std" \in facts
\* knowing more before a pass never means knowing less after it
Monotone == \A p \in Rng(Conf.passes) : \A x \in facts : After(p, facts \ {x}) \subseteq After(p, facts)
=============================================================================
