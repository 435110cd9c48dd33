-------------------------- MODULE FunctionRegistry --------------------------
(***************************************************************************)
(* The function registry.  The abstract state is, per function map, which  *)
(* implementation each custom identifier was last given; standard          *)
(* identifiers always mean their standard function (or nothing, when the   *)
(* library does not implement them).                                       *)
(*                                                                         *)
(* Operations (also the wire format of recorded histories):                *)
(*  [o|->"look", m, id]       look an identifier up (item access or get)   *)
(*  [o|->"load", m, id]       load it into the map                         *)
(*  [o|->"loadall", m]        load every standard function                 *)
(*  [o|->"reg", m, id, how, tag]  register a custom function: how is one of*)
(*       factory, path, set (accepted ways), none, notfn, inst, raise,     *)
(*       nothing, badpath, badattr, setbad, setinst, setnum (nothing       *)
(*       usable supplied)                                                  *)
(*  [o|->"use", m, id, via]   load a policy that uses it and evaluate it   *)
(* id is a record [c|->"std",...] standard and implemented, "stdno"        *)
(* standard but not implemented, "alien" no identifier of any function     *)
(* family, or "cust".                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Good == {"factory", "path", "set"}
Bad  == {"none", "notfn", "inst", "raise", "nothing", "badpath", "badattr", "setbad", "setinst", "setnum"}

\* st: a function from <<map, custom id>> to a tag; absent when never given
InitReg == [x \in {} |-> ""]

\* what an identifier stands for: "std", "none" or the tag of a custom function
Resolve(st, m, id) ==
  CASE id.c = "std" -> "std"
    [] id.c = "stdno" -> "none"
    [] OTHER -> IF <<m, id.n>> \in DOMAIN st THEN st[<<m, id.n>>] ELSE "none"

Accepted(op) == op.id.c \notin {"std", "stdno"} /\ op.how \in Good

Post(st, op) ==
  IF op.o = "reg" /\ Accepted(op)
  THEN [x \in DOMAIN st \cup {<<op.m, op.id.n>>} |-> IF x = <<op.m, op.id.n>> THEN op.tag ELSE st[x]]
  ELSE st
=============================================================================
