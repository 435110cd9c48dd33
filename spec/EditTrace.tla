------------------------------ MODULE EditTrace ------------------------------
(* Judges recorded histories of edits of real policy objects (Editing). *)
EXTENDS Editing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* what an object shows of itself and how it decides
Look(t, x, ob, at) ==
  IF ob.tree # t THEN at \o "the policy says " \o ToString(ob.tree) \o " and should say " \o ToString(t)
  ELSE IF ~ob.ctl THEN at \o "another policy changed"
  ELSE LET bad == {j \in DOMAIN x.rqs : ob.decs[j] \notin PolVal(t, x.rqs[j])} IN
       IF bad = {} THEN ""
       ELSE LET j == CHOOSE j \in bad : TRUE IN
            at \o "decision " \o ob.decs[j] \o " on request " \o ToString(j) \o " where the specification allows "
            \o ToString(PolVal(t, x.rqs[j]))

RECURSIVE Walk(_,_,_,_)
Walk(x, i, t, shelf) ==
  IF i > Len(x.ops) THEN ""
  ELSE LET op == x.ops[i]  ob == x.obs[i]
           at == "after edit " \o ToString(i) \o " " \o op.o \o (IF op.o \in {"set", "bad"} THEN " " \o op.f ELSE "") \o ": "
       IN IF ~Rested(shelf, op) THEN at \o "not a history: the shelf holds something else"
          ELSE IF ob.raised # Refused(op)
          THEN at \o IF ob.raised THEN "raised " \o ob.d ELSE "not refused"
          ELSE LET n == Edited(t, op)  w == Look(n, x, ob, at) IN IF w # "" THEN w ELSE Walk(x, i + 1, n, Shelved(shelf, t, op))

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF Len(x.obs) # Len(x.ops) THEN "history not completed"
          ELSE LET w == Look(x.p, x, x.first, "before any edit: ") IN IF w # "" THEN w ELSE Walk(x, 1, x.p, <<>>)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
