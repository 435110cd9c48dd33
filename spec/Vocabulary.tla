----------------------------- MODULE Vocabulary -----------------------------
(***************************************************************************)
(* Decision, effect and status code objects: what each may hold, what      *)
(* assigning and comparing does.                                           *)
(*                                                                         *)
(* slot [c, fix, v]  c: class, fix: "yes" a constant, "no" not,            *)
(*      "open" either (an object that a response or policy refers to),     *)
(*      v: its value ("" none yet)                                         *)
(* arg  [t |-> "str", s] a string; [t |-> "obj", j] the object in slot j;  *)
(*      [t |-> "odd", s] something else altogether                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Decisions == {"Permit", "Deny", "Indeterminate", "NotApplicable"}
Effects == {"Permit", "Deny"}
ST == "urn:oasis:names:tc:xacml:1.0:status:"
Statuses == {ST \o x : x \in {"ok", "missing-attribute", "processing-error", "syntax-error"}}
\* D: decision, E: effect of a rule, O: effect of an obligation, S: status code
Vocab(c) == CASE c = "D" -> Decisions [] c \in {"E", "O"} -> Effects [] c = "S" -> Statuses
Default(c) == CASE c = "D" -> {"Indeterminate"} [] c = "E" -> {"Deny"} [] c = "O" -> {} [] c = "S" -> {""}

Slot(c, fix, v) == [c |-> c, fix |-> fix, v |-> v]
Constants == <<Slot("D", "yes", "Permit"), Slot("D", "yes", "Deny"), Slot("D", "yes", "Indeterminate"), Slot("D", "yes", "NotApplicable"),
               Slot("E", "yes", "Permit"), Slot("E", "yes", "Deny")>>

\* the value an argument stands for where a value of class c is wanted; "!" if it is of no use there
Means(h, c, a) == CASE a.t = "str" -> a.s
                    [] a.t = "obj" -> IF h[a.j].c = c /\ c # "S" THEN h[a.j].v ELSE "!"
                    [] OTHER -> "!"
Valid(h, c, a) == Means(h, c, a) \in Vocab(c)

(***************************************************************************)
(* Do(h, o): the set of outcomes [ok, h, ret] that are right               *)
(***************************************************************************)
Res(ok, h, ret) == [ok |-> ok, h |-> h, ret |-> ret]
Refuse(h) == {Res(FALSE, h, "")}
Store(h, i, v) == {Res(TRUE, [h EXCEPT ![i].v = v], "")}
Make(h, c, fix, v) == {Res(TRUE, Append(h, Slot(c, fix, v)), "")}
Neg(b) == IF b THEN "false" ELSE "true"

Assign(h, i, a) ==
  IF h[i].fix = "yes" THEN Refuse(h)
  ELSE IF ~Valid(h, h[i].c, a) THEN Refuse(h)
  ELSE Store(h, i, Means(h, h[i].c, a)) \cup (IF h[i].fix = "open" THEN Refuse(h) ELSE {})

Compare(h, i, a, how) ==
  LET c == h[i].c
      \* another class with the same words: whether that is comparable is left open
      cross == a.t = "obj" /\ h[a.j].c # c /\ h[a.j].c # "S"
      m == IF cross THEN h[a.j].v ELSE Means(h, c, a)
      eq == h[i].v = m
  IN IF m \notin Vocab(c) THEN Refuse(h)
     ELSE {Res(TRUE, h, IF how \in {"ne", "rne"} THEN Neg(eq) ELSE Neg(~eq))} \cup (IF cross THEN Refuse(h) ELSE {})

Do(h, o) ==
  CASE o.o = "new"  -> IF Valid(h, o.c, o.a) THEN Make(h, o.c, "no", Means(h, o.c, o.a)) ELSE Refuse(h)
    [] o.o = "make" -> UNION {Make(h, o.c, "no", v) : v \in Default(o.c)}
                       \cup (IF Default(o.c) = {} THEN Refuse(h) ELSE {})
    [] o.o = "const" -> Make(h, o.c, "yes", o.v)                     \* another instance of a constant's class
    [] o.o = "copy" -> Make(h, h[o.i].c, h[o.i].fix, h[o.i].v)
    [] o.o = "set"  -> Assign(h, o.i, o.a)
    [] o.o = "unset" -> Refuse(h)                                    \* deleting the value
    [] o.o = "cmp"  -> Compare(h, o.i, o.a, o.how)
    [] o.o = "from" -> Make(h, o.c, "open", o.v)                     \* from an evaluation, a response or a policy
    \* a result made from a decision: what it holds is its own
    [] o.o = "made" -> IF h[o.j].c = "D" THEN Make(h, "D", "open", h[o.j].v) ELSE Refuse(h)
    \* a property that holds such an object: only that class is let in
    [] o.o = "give" -> IF o.a.t = "obj" /\ h[o.a.j].c = o.c THEN {Res(TRUE, h, h[o.a.j].v)} ELSE Refuse(h)
=============================================================================
