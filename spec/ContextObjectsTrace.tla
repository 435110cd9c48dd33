------------------------- MODULE ContextObjectsTrace -------------------------
(* Judges recorded histories of operations on real request and response      *)
(* objects: obs[i] = [ok, d, h], h what every object shows afterwards.        *)
EXTENDS ContextObjects, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Shown(h) == [i \in DOMAIN h |-> [c |-> h[i].c, s |-> h[i].s]]
Diff(g, h) == IF Len(g) # Len(h) THEN ToString(Len(g)) \o " objects where there should be " \o ToString(Len(h))
              ELSE LET i == CHOOSE i \in DOMAIN h : g[i] # h[i] IN
                   "object " \o ToString(i) \o " shows " \o ToString(g[i]) \o " and should show " \o ToString(h[i])
RECURSIVE Bad(_,_,_)
Bad(x, h, i) ==
  IF i > Len(x.tr) THEN ""
  ELSE LET op == x.tr[i]  ob == x.obs[i]  r == Do(h, op)
           step == "step " \o ToString(i) \o " " \o ToString(op) \o ": "
       IN IF ob.ok # r.ok THEN step \o (IF ob.ok THEN "not refused" ELSE "raises " \o ob.d)
          ELSE IF ob.h # Shown(r.h) THEN step \o Diff(ob.h, Shown(r.h))
          ELSE Bad(x, r.h, i + 1)
Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF Len(x.obs) # Len(x.tr) THEN "history not completed"
          ELSE IF x.first # Shown(x.h) THEN "at first: " \o Diff(x.first, Shown(x.h))
          ELSE Bad(x, x.h, 1)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
