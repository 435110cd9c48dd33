------------------------------- MODULE Editing -------------------------------
(***************************************************************************)
(* Policy objects edited in place.  The state is the policy tree (syntax   *)
(* of module Xacml; every policy and rule also has desc, policies version).*)
(* An edit names the place by a path of field names and positions:         *)
(*   set    [at, f, v]     a field of the object at the path               *)
(*   app, ins, put, del, ext, clear, rev, mov  [at, ...]  the list there   *)
(*   copy   []             the tree is copied; what is edited from then on *)
(*                         is the copy or the original, the other one rests*)
(* With keep the object taken out (del, put, set of a part) goes onto a    *)
(* shelf, unchanged; with from = i the element or part put in is the i-th  *)
(* object of the shelf, which leaves it.                                   *)
(*   bad    [at, f, w]     a field given a value of a wrong kind w         *)
(*   badl   [at, how, w]   a list given an element of a wrong kind w       *)
(* Edits of the right kind change that place and nothing else; the others  *)
(* are refused and change nothing.                                         *)
(***************************************************************************)
EXTENDS Xacml

RECURSIVE Get(_,_)
Get(t, at) == IF at = <<>> THEN t ELSE Get(t[Head(at)], Tail(at))
RECURSIVE Put(_,_,_)
Put(t, at, v) == IF at = <<>> THEN v ELSE [t EXCEPT ![Head(at)] = Put(@, Tail(at), v)]

SetField(n, f, v) ==
  CASE f = "fn"     -> [n EXCEPT !.fam = v.fam, !.ft = v.ft]
    [] f = "lit"    -> [n EXCEPT !.t = v.t, !.v = v.v]      \* a match's literal
    [] f = "value"  -> [n EXCEPT !.v = v]                   \* the text of a literal
    [] f \in {"tgt", "cond"} -> [n EXCEPT ![f] = <<v>>]
    [] OTHER        -> [n EXCEPT ![f] = v]

InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
RemoveAt(q, i)    == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

ListEdit(q, op) ==
  CASE op.o = "app"   -> Append(q, op.x)
    [] op.o = "ins"   -> InsertAt(q, op.i, op.x)
    [] op.o = "put"   -> [q EXCEPT ![op.i] = op.x]
    [] op.o = "del"   -> RemoveAt(q, op.i)
    [] op.o = "ext"   -> q \o op.xs
    [] op.o = "clear" -> <<>>
    [] op.o = "rev"   -> [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
    [] op.o = "mov"   -> InsertAt(RemoveAt(q, op.i), op.j, q[op.i])

\* what an edit takes out
Out(t, op) == IF op.o \in {"del", "put"} THEN Get(t, op.at)[op.i]
              ELSE IF op.f \in {"tgt", "cond"} THEN Get(t, op.at)[op.f][1] 
              ELSE IF op.f = "lit" THEN LET m == Get(t, op.at) IN [t |-> m.t, v |-> m.v] ELSE Get(t, op.at)[op.f]
Keeps(op) == "keep" \in DOMAIN op
From(op) == IF "from" \in DOMAIN op THEN op.from ELSE 0
\* the shelf after an edit
Shelved(shelf, t, op) ==
  LET q == IF From(op) = 0 THEN shelf ELSE RemoveAt(shelf, From(op)) IN
  IF Keeps(op) THEN Append(q, Out(t, op)) ELSE q
\* an object that was on the shelf is what it was
Rested(shelf, op) == From(op) = 0 \/ (From(op) \in DOMAIN shelf /\ shelf[From(op)] = IF op.o = "set" THEN op.v ELSE op.x)

Refused(op) == op.o \in {"bad", "badl"}
Edited(t, op) ==
  IF Refused(op) \/ op.o = "copy" THEN t
  ELSE IF op.o = "set" THEN Put(t, op.at, SetField(Get(t, op.at), op.f, op.v))
  ELSE Put(t, op.at, ListEdit(Get(t, op.at), op))
=============================================================================
