--------------------------- MODULE ContainerTrace ---------------------------
(* Judges recorded histories of operations on real containers (Containers). *)
EXTENDS Containers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

IsMap(k) == k \in {"restricted", "vetted"}
\* contents are compared by identity of the items, dictionaries as functions
Ids(c) == [i \in DOMAIN c |-> c[i].i]
AsMap(q) == SetAll(Empty, q)

Held(k, c) == IF IsMap(k) THEN c ELSE Ids(c)
Obs(k, ob) == IF IsMap(k) THEN AsMap(ob.c) ELSE ob.c
\* how the real container may have gone on: the states allowed after the observed outcome
Allowed(k, d, ok) ==
  CASE d.r = "ok" -> IF ok THEN {d.c} ELSE {}
    [] d.r = "no" -> IF ok THEN {} ELSE {d.c}
    [] d.r = "any" -> {d.c}
    [] d.r = "either" -> IF ok THEN (IF d.fits THEN {d.c2} ELSE {}) ELSE {d.c}
    [] d.r = "part" -> IF ok THEN {} ELSE {SetAll(d.c, SubSeq(d.good, 1, n)) : n \in 0..Len(d.good)}
Uniques(c, o) == {Uniq(c, SubSeq(o.q, 1, n)) : n \in 0..Len(o.q)}

RECURSIVE Bad(_,_,_,_)
Bad(x, c, names, i) ==
  IF i > Len(x.tr) THEN ""
  ELSE LET o == x.tr[i]
           ob == x.obs[i]
           d == Do(x.k, c, names, o)
           nm == IF o.o = "new" /\ IsMap(x.k) THEN {p.k : p \in RangeOf(o.q)} ELSE names
           base == IF x.k = "uniq" /\ o.o \in {"extend", "iadd"} /\ o.via = "broken" THEN Uniques(c, o) ELSE Allowed(x.k, d, ob.ok)
           hits == {s \in base : Held(x.k, s) = Obs(x.k, ob)}
           step == "step " \o ToString(i) \o " " \o ToString(o) \o " on " \o ToString(Held(x.k, c)) \o ": "
       IN IF base = {} THEN step \o (IF ob.ok THEN "accepted, giving " \o ToString(Obs(x.k, ob)) \o ", where it must raise" ELSE "raises " \o ob.d)
          ELSE IF hits = {} THEN step \o "holds " \o ToString(Obs(x.k, ob)) \o " where it must hold one of " \o ToString({Held(x.k, s) : s \in base})
          ELSE IF ob.odd # "" THEN step \o ob.odd
          ELSE IF d.r = "ok" /\ d.ret # "" /\ ob.ret # d.ret THEN step \o "gives " \o ob.ret \o " where it must give " \o d.ret
          ELSE Bad(x, CHOOSE s \in hits : TRUE, nm, i + 1)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE Bad(x, IF IsMap(x.k) THEN Empty ELSE <<>>, {}, 1)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
