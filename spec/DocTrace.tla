------------------------------- MODULE DocTrace -------------------------------
(* Judges what the readers made of recorded documents (PolicyDoc). *)
EXTENDS PolicyDoc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* the first place two contents differ is left to the reader of the message
Why1(r, ob) ==
  IF ob.ok /\ r.s = 0 THEN "a document that must be refused is accepted as " \o ToString(ob.c)
  ELSE IF ~ob.ok /\ r.s = 3 THEN "a valid document is refused: " \o ob.d
  ELSE IF ob.ok /\ r.s >= 2 /\ ob.c # WithVersions(r.c, ob.c) THEN "parsed as " \o ToString(ob.c) \o " where the document says " \o ToString(r.c)
  ELSE ""
RECURSIVE First(_,_,_)
First(r, obs, i) == IF i > Len(obs) THEN "" ELSE LET w == Why1(r, obs[i]) IN
                    IF w # "" THEN obs[i].via \o ": " \o w ELSE First(r, obs, i + 1)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE First(IF x.wf THEN Parse(x.t) ELSE Res(0, <<>>), x.obs, 1)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
