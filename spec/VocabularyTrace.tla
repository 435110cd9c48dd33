-------------------------- MODULE VocabularyTrace --------------------------
(* Judges recorded histories of operations on real objects (Vocabulary).    *)
(* obs[i] = [ok, d, ret, odd, vs]: vs the values of all slots afterwards    *)
EXTENDS Vocabulary, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Values(h) == [i \in DOMAIN h |-> h[i].v]
RECURSIVE Bad(_,_,_)
Bad(x, h, i) ==
  IF i > Len(x.tr) THEN ""
  ELSE LET o == x.tr[i]
           ob == x.obs[i]
           all == Do(h, o)
           hits == {r \in all : r.ok = ob.ok /\ Values(r.h) = ob.vs /\ (r.ok => r.ret = ob.ret)}
           step == "step " \o ToString(i) \o " " \o ToString(o) \o " on " \o ToString(Values(h)) \o ": "
       IN IF hits = {} THEN step \o (IF ob.ok THEN "gives " \o ob.ret ELSE "raises " \o ob.d) \o " and then holds " \o ToString(ob.vs)
                            \o ", allowed: " \o ToString({<<r.ok, r.ret, Values(r.h)>> : r \in all})
          ELSE IF ob.odd # "" THEN step \o ob.odd
          ELSE Bad(x, (CHOOSE r \in hits : TRUE).h, i + 1)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF x.start # Values(Constants) THEN "the constants hold " \o ToString(x.start)
          ELSE Bad(x, Constants, 1)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
