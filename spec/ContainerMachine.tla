-------------------------- MODULE ContainerMachine --------------------------
(***************************************************************************)
(* Every history of up to Depth operations on one container of each kind,  *)
(* with operands of every form; checks that what is held is always vetted  *)
(* and that a refused operation changes nothing.                           *)
(***************************************************************************)
EXTENDS Containers, Json
CONSTANTS Kinds, Depth, Emit
VARIABLES k, c, names, tr, last
vars == <<k, c, names, tr, last>>

It(i) == [i |-> i, e |-> i, ok |-> i < 50]          \* 1 2: of the type; 51: not
Dup == [i |-> 3, e |-> 1, ok |-> TRUE]              \* equal to item 1, another object
Vias == {"list", "gen", "typed"}
Pair(x, v) == [k |-> x, v |-> v]

ListOperands == {<<>>, <<It(1)>>, <<It(2), It(1)>>, <<It(1), It(51)>>, <<It(51)>>}
TypedOps ==
  {[o |-> "append", x |-> x] : x \in {It(1), It(2), It(51)}}
  \cup {[o |-> f, q |-> q, via |-> v] : f \in {"extend", "iadd"}, q \in ListOperands, v \in Vias}
  \cup {[o |-> f, q |-> <<It(1)>>, via |-> v] : f \in {"extend", "iadd"}, v \in {"self", "broken", "none"}}
  \cup {[o |-> "insert", i |-> i, x |-> x] : i \in {0, 1, -1, 9}, x \in {It(2), It(51)}}
  \cup {[o |-> "set", i |-> i, x |-> x] : i \in {0, -1, 2}, x \in {It(2), It(51)}}
  \cup {[o |-> "setslice", i |-> s[1], j |-> s[2], k |-> s[3], q |-> q, via |-> v] :
          s \in {<<0, 1, 1>>, <<1, 9, 1>>, <<0, 9, 2>>, <<0, 9, -1>>}, q \in {<<>>, <<It(1)>>, <<It(2), It(1)>>, <<It(2), It(51)>>}, v \in {"list", "gen"}}
  \cup {[o |-> "setslice", i |-> 0, j |-> 1, k |-> 1, q |-> <<It(1)>>, via |-> v] : v \in {"self", "broken"}}
  \cup {[o |-> "del", i |-> 0], [o |-> "pop", i |-> -1], [o |-> "delslice", i |-> 0, j |-> 9, k |-> 2],
        [o |-> "remove", x |-> It(2)], [o |-> "clear"], [o |-> "reverse"], [o |-> "imul", i |-> 2], [o |-> "imul", i |-> 0]}
UniqOps ==
  {[o |-> "append", x |-> x] : x \in {It(1), It(2), Dup}}
  \cup {[o |-> f, q |-> q, via |-> v] : f \in {"extend", "iadd"}, q \in {<<>>, <<It(1), Dup>>, <<It(2), It(1), It(2)>>, <<Dup>>}, v \in Vias}
  \cup {[o |-> f, q |-> <<>>, via |-> "self"] : f \in {"extend", "iadd"}}
  \cup {[o |-> "del", i |-> 0], [o |-> "pop", i |-> -1], [o |-> "remove", x |-> It(2)], [o |-> "clear"], [o |-> "reverse"],
        [o |-> "has", x |-> Dup], [o |-> "index", x |-> It(2)]}
Keys == {"a", "b", "z"}
MapOps == {[o |-> f, k |-> x] : f \in {"get", "item", "has", "del", "pop"}, x \in {"a", "z"}}
          \cup {[o |-> f, k |-> x, v |-> 5] : f \in {"getd", "popd"}, x \in {"a", "z"}} \cup {[o |-> "clear"], [o |-> "len"]}
Pairs == {<<>>, <<Pair("a", 3)>>, <<Pair("b", 4), Pair("a", 5)>>, <<Pair("a", 6), Pair("z", 1)>>, <<Pair("z", 2)>>}
RestrictedOps ==
  {[o |-> f, k |-> x, v |-> v] : f \in {"set", "setdefault"}, x \in Keys, v \in {1, 2}}
  \cup {[o |-> f, q |-> q, via |-> v] : f \in {"update", "ior"}, q \in Pairs, v \in {"dict"}}
  \cup {[o |-> "update", q |-> q, via |-> v] : q \in Pairs, v \in {"kw", "both", "pairs"}}
  \cup MapOps
VettedOps ==
  {[o |-> f, k |-> x, v |-> v] : f \in {"set", "setdefault"}, x \in Keys \cup {"boom"}, v \in {1, 10, 99}}
  \cup {[o |-> "update", q |-> q, via |-> v] : q \in Pairs \cup {<<Pair("a", 1), Pair("b", 12)>>}, v \in {"dict", "kw", "pairs"}}
  \cup MapOps
Ops == CASE k = "typed" -> TypedOps [] k = "uniq" -> UniqOps [] k = "restricted" -> RestrictedOps [] k = "vetted" -> VettedOps

News(x) == CASE x = "typed" -> {[o |-> "new", q |-> q, via |-> "list"] : q \in {<<>>, <<It(1), It(2)>>}}
             [] x = "uniq" -> {[o |-> "new", q |-> q, via |-> "gen"] : q \in {<<>>, <<It(1), Dup, It(2)>>}}
             [] x = "restricted" -> {[o |-> "new", q |-> <<Pair("a", 1), Pair("b", 2)>>, via |-> "dict"]}
             [] x = "vetted" -> {[o |-> "new", q |-> <<>>, via |-> "dict"]}
IsMap(x) == x \in {"restricted", "vetted"}

Init == /\ k \in Kinds
        /\ \E o \in News(k) : /\ tr = <<o>> /\ names = {p.k : p \in IF IsMap(k) THEN RangeOf(o.q) ELSE {}}
                              /\ c = IF IsMap(k) THEN SetAll(Empty, o.q) ELSE Do(k, <<>>, {}, o).c
        /\ last = [r |-> "ok", c |-> c]
Next == /\ Len(tr) <= Depth
        /\ \E o \in Ops :
             LET d == Do(k, c, names, o) IN
             /\ IF IsMap(k) THEN Cardinality(DOMAIN d.c) <= 4 ELSE Len(d.c) <= 5
             /\ c' = (IF d.r = "either" /\ d.fits THEN d.c2 ELSE d.c)
             /\ tr' = Append(tr, o)
             /\ last' = [r |-> d.r, c |-> c]
        /\ UNCHANGED <<k, names>>
Spec == Init /\ [][Next]_vars

Vetted == CASE k = "typed" -> AllOk(c)
            [] k = "uniq" -> \A i, j \in DOMAIN c : i # j => c[i].e # c[j].e
            [] k = "restricted" -> DOMAIN c \subseteq names
            [] OTHER -> \A x \in DOMAIN c : Fits(Pair(x, c[x]))
Unchanged == last.r = "no" => c = last.c
EmitH == Emit /\ Len(tr) = Depth + 1 => PrintT(<<"@@HIST", ToJson([k |-> k, tr |-> tr])>>)
=============================================================================
