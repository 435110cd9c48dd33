------------------------------- MODULE Plugins -------------------------------
(***************************************************************************)
(* What can be plugged into policy objects and readers.  A slot holds      *)
(*   p1, p2  a Policy, s1 a PolicySet: a factory of combining algorithms,  *)
(*           the identifier set last, the algorithm in force               *)
(*   a1, a2  an Apply, m1 a match: a function map, the identifier, the     *)
(*           function in force, and whether it follows the identifier      *)
(* and rd gives the reader registered for each kind of element.            *)
(* A slot is [plug, id, use, load]; use is "" if nothing is in force.      *)
(* What is plugged in is asked when an identifier is set (or a function    *)
(* fetched), in that object only.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == {"p1", "p2", "s1", "a1", "a2", "m1"}
Comb(o) == o \in {"p1", "p2", "s1"}
\* the last four are bases of other kinds: no element is of such a kind
Readers == {"Rule", "Condition", "SubjectMatch", "AttributeValue", "ActionAttributeDesignator", "AttributeSelector",
            "Apply", "Policy", "PolicySet", "Expression", "MatchBase", "AttributeDesignator", "XacmlCoreBase"}
Blank == [plug |-> "std", id |-> "", use |-> "", load |-> TRUE]
Start == [s |-> [o \in Slots |-> Blank], rd |-> [t \in Readers |-> "std"]]

\* what a factory or map gives for an identifier; "?" where it gives nothing usable
StdAlg(id) == IF id \in {"DO", "PO", "FA"} THEN id ELSE "?"
StdFun(id) == IF id = "eq" THEN "EQ" ELSE "?"
Give(o, plug, id) ==
  IF Comb(o)
  THEN CASE plug = "std" -> StdAlg(id)
         [] plug = "A" -> (CASE id = "c1" -> "CD" [] id = "DO" -> "CP" [] OTHER -> "?")      \* a map of its own
         [] plug = "B" -> (CASE id = "c1" -> "CP" [] id = "c2" -> "CX" [] OTHER -> StdAlg(id)) \* a class of its own
  ELSE CASE plug = "std" -> StdFun(id)
         [] plug = "A" -> (CASE id = "c1" -> "FT" [] OTHER -> StdFun(id))
         [] plug = "B" -> (CASE id = "c1" -> "FF" [] id = "c2" -> "FX" [] id = "eq" -> "FT" [] OTHER -> "?")
         [] plug = "D" -> (CASE id = "c1" -> "FF" [] OTHER -> "?")                            \* a plain dictionary

Ok(st)  == [ok |-> TRUE, st |-> st]
No(st)  == [ok |-> FALSE, st |-> st]
With(st, o, x) == [st EXCEPT !.s[o] = x]
Do(st, op) ==
  IF op.o = "read" THEN Ok([st EXCEPT !.rd[op.t] = op.v])
  ELSE IF op.o = "badread" THEN No(st)
  ELSE LET x == st.s[op.on] IN
  CASE op.o = "new"   -> Ok(With(st, op.on, [Blank EXCEPT !.plug = op.v]))
    [] op.o = "plug"  -> Ok(With(st, op.on, [x EXCEPT !.plug = op.v]))
    [] op.o = "load"  -> Ok(With(st, op.on, [x EXCEPT !.load = op.v]))
    [] op.o = "id"    -> LET g == Give(op.on, x.plug, op.v) IN
                         IF ~x.load THEN Ok(With(st, op.on, [x EXCEPT !.id = op.v]))
                         ELSE IF g = "?" THEN No(st) ELSE Ok(With(st, op.on, [x EXCEPT !.id = op.v, !.use = g]))
    [] op.o = "fetch" -> LET g == Give(op.on, op.v, x.id) IN
                         IF x.id = "" \/ g = "?" THEN No(st) ELSE Ok(With(st, op.on, [x EXCEPT !.use = g]))
    [] OTHER          -> No(st)      \* newbad, badplug, badid, badload

\* how the object in a slot then decides on two requests
Out(u) == CASE u \in {"DO", "CD"} -> <<"Deny", "Deny">>
            [] u \in {"PO", "CP"} -> <<"Permit", "Permit">>
            [] u = "FA" -> <<"Permit", "Deny">>
            [] u = "EQ" -> <<"true", "false">>
            [] u = "FT" -> <<"true", "true">>
            [] u = "FF" -> <<"false", "false">>
            [] u = "FX" -> <<"error", "error">>
            [] OTHER -> <<"Indeterminate", "Indeterminate">>
OutOf(o, x) == IF x.use = "" /\ ~Comb(o) THEN <<"error", "error">> ELSE Out(x.use)

(* How many elements of each kind a policy document has: each is read once, *)
(* by the reader registered for its kind.                                   *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE InExpr(_,_)
InExpr(t, e) == CASE e.k = "lit" -> IF t = "AttributeValue" THEN 1 ELSE 0
                  [] e.k = "des" -> IF t = "ActionAttributeDesignator" /\ e.cat = "A" THEN 1 ELSE 0
                  [] e.k = "sel" -> IF t = "AttributeSelector" THEN 1 ELSE 0
                  [] OTHER -> (IF t = "Apply" THEN 1 ELSE 0) + Sum([i \in DOMAIN e.args |-> InExpr(t, e.args[i])])
InMatch(t, m) == InExpr(t, m.src) + (IF t = "AttributeValue" THEN 1 ELSE 0)
InSect(t, c, q) == Sum([i \in DOMAIN q |-> Sum([j \in DOMAIN q[i] |-> InMatch(t, q[i][j]) + (IF t = "SubjectMatch" /\ c = "S" THEN 1 ELSE 0)])])
InTgt(t, q) == IF q = <<>> THEN 0 ELSE InSect(t, "S", q[1].S) + InSect(t, "R", q[1].R) + InSect(t, "A", q[1].A) + InSect(t, "E", q[1].E)
InRule(t, r) == (IF t = "Rule" THEN 1 ELSE 0) + InTgt(t, r.tgt)
                + (IF r.cond = <<>> THEN 0 ELSE (IF t = "Condition" THEN 1 ELSE 0) + InExpr(t, r.cond[1]))
RECURSIVE InPol(_,_)
InPol(t, p) == (IF t = (IF p.k = "P" THEN "Policy" ELSE "PolicySet") THEN 1 ELSE 0) + InTgt(t, p.tgt) + IF p.k = "P" THEN Sum([i \in DOMAIN p.rules |-> InRule(t, p.rules[i])])
                                 ELSE Sum([i \in DOMAIN p.kids |-> InPol(t, p.kids[i])])
=============================================================================
