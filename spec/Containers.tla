----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The containers policies and contexts are built from, as sequences and   *)
(* finite functions, and what every operation on one does.                 *)
(*                                                                         *)
(* broken: an iterable that fails before its end; none: no iterable at all *)
(* item  [i, e, ok]  i: identity, e: equal items have equal e,             *)
(*                   ok: of the element type                               *)
(* Do(c, o) = [r, s, ret, c]                                               *)
(*   r: "ok" succeeds, "no" raises, "any" either; c: contents afterwards;  *)
(*   ret: the value given, as a string (an item's identity, a number), ""    *)
(*   if none is claimed                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(q) == {q[i] : i \in DOMAIN q}
Out(r, c, ret) == [r |-> r, c |-> c, ret |-> ret]
Yes(c) == Out("ok", c, "")
Gives(c, v) == Out("ok", c, ToString(v))
No(c)  == Out("no", c, "")
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* Sequences with Python's indices                                         *)
(***************************************************************************)
At(i, n)    == IF i < 0 THEN i + n ELSE i                        \* 0-based
In(i, n)    == At(i, n) >= 0 /\ At(i, n) < n
Clamp(i, n) == IF i < 0 THEN Max(0, i + n) ELSE Min(i, n)
Cut(q, a, b, p) == SubSeq(q, 1, a) \o p \o SubSeq(q, Max(a, b) + 1, Len(q))
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
\* the 1-based positions of the slice i:j:k, k > 0, in order; k = -1: all of them backwards
Steps(i, j, k, n) ==
  IF k = -1 THEN Rev([x \in 1..n |-> x])
  ELSE LET a == Clamp(i, n) b == Clamp(j, n)
           m == IF b > a THEN (b - a + k - 1) \div k ELSE 0
       IN [x \in 1..m |-> a + (x - 1) * k + 1]
Without(q, ps) == LET RECURSIVE F(_)
                      F(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in ps THEN <<>> ELSE <<q[i]>>) \o F(i + 1)
                  IN F(1)
First(q, e) == IF \E i \in DOMAIN q : q[i].e = e
               THEN CHOOSE i \in DOMAIN q : q[i].e = e /\ \A j \in DOMAIN q : j < i => q[j].e # e ELSE 0

\* operand q of an operation: given as some iterable; "self" stands for the list itself,
\* "broken" for one that fails before it ends
Operand(L, o) == IF o.via = "self" THEN L ELSE o.q
AllOk(q) == \A i \in DOMAIN q : q[i].ok

RECURSIVE Uniq(_,_)
Uniq(L, q) == IF q = <<>> THEN L ELSE Uniq(IF First(L, Head(q).e) > 0 THEN L ELSE Append(L, Head(q)), Tail(q))

\* what both kinds of list share with ordinary lists
ListDo(L, o) ==
  LET n == Len(L) IN
  CASE o.o = "del"     -> IF In(o.i, n) THEN Yes(Cut(L, At(o.i, n), At(o.i, n) + 1, <<>>)) ELSE No(L)
    [] o.o = "pop"     -> IF In(o.i, n) THEN Gives(Cut(L, At(o.i, n), At(o.i, n) + 1, <<>>), L[At(o.i, n) + 1].i) ELSE No(L)
    [] o.o = "delslice"-> Yes(Without(L, RangeOf(Steps(o.i, o.j, o.k, n))))
    [] o.o = "remove"  -> IF First(L, o.x.e) > 0 THEN Yes(Cut(L, First(L, o.x.e) - 1, First(L, o.x.e), <<>>)) ELSE No(L)
    [] o.o = "clear"   -> Yes(<<>>)
    [] o.o = "reverse" -> Yes(Rev(L))
    [] o.o = "get"     -> IF In(o.i, n) THEN Gives(L, L[At(o.i, n) + 1].i) ELSE No(L)
    [] o.o = "len"     -> Gives(L, n)
    [] o.o = "count"   -> Gives(L, Cardinality({i \in DOMAIN L : L[i].e = o.x.e}))
    [] o.o = "index"   -> IF First(L, o.x.e) > 0 THEN Gives(L, First(L, o.x.e) - 1) ELSE No(L)
    [] o.o = "has"     -> Gives(L, IF First(L, o.x.e) > 0 THEN 1 ELSE 0)

TypedDo(L, o) ==
  LET n == Len(L) q == Operand(L, o) IN
  CASE o.o \in {"new", "extend", "iadd", "setslice"} /\ o.via \in {"broken", "none"} -> No(L)
    [] o.o = "new"      -> IF AllOk(o.q) THEN Yes(o.q) ELSE No(L)
    [] o.o = "append"   -> IF o.x.ok THEN Yes(Append(L, o.x)) ELSE No(L)
    [] o.o \in {"extend", "iadd"} -> IF AllOk(q) THEN Yes(L \o q) ELSE No(L)
    [] o.o = "insert"   -> IF o.x.ok THEN Yes(Cut(L, Clamp(o.i, n), Clamp(o.i, n), <<o.x>>)) ELSE No(L)
    [] o.o = "set"      -> IF o.x.ok /\ In(o.i, n) THEN Yes([L EXCEPT ![At(o.i, n) + 1] = o.x]) ELSE No(L)
    [] o.o = "setslice" ->
         LET ps == Steps(o.i, o.j, o.k, n) IN
         IF ~AllOk(q) THEN No(L)
         ELSE IF o.k = 1 THEN Yes(Cut(L, Clamp(o.i, n), Clamp(o.j, n), q))
         ELSE IF Len(q) # Len(ps) THEN No(L)
         ELSE Yes([i \in DOMAIN L |-> IF i \in RangeOf(ps) THEN q[CHOOSE x \in DOMAIN ps : ps[x] = i] ELSE L[i]])
    [] o.o = "imul"     -> Yes(IF o.i <= 0 THEN <<>> ELSE IF o.i = 1 THEN L ELSE L \o L)
    [] OTHER -> ListDo(L, o)

UniqDo(L, o) ==
  CASE o.o = "new"    -> IF o.via = "broken" THEN Out("any", L, "") ELSE Yes(Uniq(<<>>, o.q))
    [] o.o = "append" -> Yes(Uniq(L, <<o.x>>))
    [] o.o \in {"extend", "iadd"} /\ o.via = "none" -> No(L)
    [] o.o \in {"extend", "iadd"} -> IF o.via = "broken" THEN Out("any", Uniq(L, o.q), "") ELSE Yes(Uniq(L, Operand(L, o)))
    [] OTHER -> ListDo(L, o)

(***************************************************************************)
(* Dictionaries: functions from strings to numbers; q: pairs [k, v]        *)
(***************************************************************************)
Set1(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
RECURSIVE SetAll(_,_)
SetAll(m, q) == IF q = <<>> THEN m ELSE SetAll(Set1(m, Head(q).k, Head(q).v), Tail(q))
Less(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Nothing == -1                                                    \* None
Empty == [x \in {} |-> 0]

MapDo(m, o) ==
  CASE o.o = "get"     -> Gives(m, IF o.k \in DOMAIN m THEN m[o.k] ELSE Nothing)
    [] o.o = "getd"    -> Gives(m, IF o.k \in DOMAIN m THEN m[o.k] ELSE o.v)
    [] o.o = "item"    -> IF o.k \in DOMAIN m THEN Gives(m, m[o.k]) ELSE No(m)
    [] o.o = "has"     -> Gives(m, IF o.k \in DOMAIN m THEN 1 ELSE 0)
    [] o.o = "len"     -> Gives(m, Cardinality(DOMAIN m))
    [] o.o = "del"     -> IF o.k \in DOMAIN m THEN Yes(Less(m, o.k)) ELSE No(m)
    [] o.o = "pop"     -> IF o.k \in DOMAIN m THEN Gives(Less(m, o.k), m[o.k]) ELSE No(m)
    [] o.o = "popd"    -> IF o.k \in DOMAIN m THEN Gives(Less(m, o.k), m[o.k]) ELSE Gives(m, o.v)
    [] o.o = "clear"   -> Yes(Empty)

\* names: the keys it was made with
RestrictedDo(m, names, o) ==
  CASE o.o = "new" -> Yes(SetAll(Empty, o.q))
    [] o.o = "set" -> IF o.k \in names THEN Yes(Set1(m, o.k, o.v)) ELSE No(m)
    [] o.o = "setdefault" -> IF o.k \in DOMAIN m THEN Gives(m, m[o.k])
                             ELSE IF o.k \in names THEN Gives(Set1(m, o.k, o.v), o.v) ELSE No(m)
    [] o.o \in {"update", "ior"} ->
         IF o.via \in {"pairs", "gen"} THEN [r |-> "either", c |-> m, ret |-> "", c2 |-> SetAll(m, o.q),
                                  fits |-> \A i \in DOMAIN o.q : o.q[i].k \in names]
         ELSE IF \A i \in DOMAIN o.q : o.q[i].k \in names THEN Yes(SetAll(m, o.q)) ELSE No(m)
    [] OTHER -> MapDo(m, o)

\* filters: keys starting with a letter of Good, values below 10; key "boom" and value 99 make the filters fail
KeyOk(k) == k \in {"a", "b", "c"}
ValOk(v) == v < 10
Fails(p) == p.k = "boom" \/ (KeyOk(p.k) /\ p.v = 99)
Fits(p) == KeyOk(p.k) /\ ValOk(p.v)
\* what is filtered out is not held; whether that is silent or raises is not claimed
VettedDo(m, o) ==
  CASE o.o = "new" -> Yes(Empty)
    [] o.o = "set" -> IF Fits(o) THEN Yes(Set1(m, o.k, o.v)) ELSE IF Fails(o) THEN No(m) ELSE Out("any", m, "")
    [] o.o = "setdefault" -> IF o.k \in DOMAIN m THEN Gives(m, m[o.k])
                             ELSE IF Fits(o) THEN Gives(Set1(m, o.k, o.v), o.v)
                             ELSE IF Fails(o) THEN No(m) ELSE Out("any", m, "")
    [] o.o = "update" ->
         LET good == SelectSeq(o.q, Fits) IN
         IF good = o.q THEN Yes(SetAll(m, o.q))
         ELSE IF \E i \in DOMAIN o.q : Fails(o.q[i])
              THEN [r |-> "part", c |-> m, ret |-> "", good |-> good]     \* what came before the failure may be held
         ELSE [r |-> "any", c |-> SetAll(m, good), ret |-> ""]
    [] OTHER -> MapDo(m, o)

Do(k, c, names, o) == CASE k = "typed" -> TypedDo(c, o) [] k = "uniq" -> UniqDo(c, o)
                        [] k = "restricted" -> RestrictedDo(c, names, o) [] k = "vetted" -> VettedDo(c, o)
=============================================================================
