--------------------------- MODULE BackendsTrace ----------------------------
(* Judges what the same input gave under each configuration.  An            *)
(* observation [b, o]: b the configuration, o what was seen, step by step.  *)
(* Whatever is seen first becomes known, and must be seen ever after;       *)
(* for the contents of BackendsMachine what must be seen is known already.  *)
EXTENDS RawTree, Backends, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* places that hold text, and places that hold elements
Exact == {"value", "xpathversion", "context-value", "env-value"}
Stripped == {"description", "rule-description"}
Holders == {"rules", "args", "attribute", "request", "response", "subjects", "policies"}
Expect(x) == IF x.kind # "back.surface" THEN {}
             ELSE IF x.place \in Holders THEN (IF Strip(Said(x.items, 1)) = "" /\ Number(x.items) > 0 THEN {<<"kids", ToString(Number(x.items))>>} ELSE {})
             ELSE IF Number(x.items) > 0 THEN {}
             ELSE IF x.place = "selected" THEN {<<"bag", Said(x.items, 1)>>}
             ELSE IF x.place \in Exact THEN (IF Strip(Said(x.items, 1)) # "" THEN {<<"text", Said(x.items, 1)>>} ELSE {})
             ELSE IF x.place \in Stripped THEN {<<"text", Strip(Said(x.items, 1))>>} ELSE {}

RECURSIVE Agree(_,_,_)
Agree(q, j, known) ==
  IF j > Len(q) THEN ""
  ELSE LET ob == q[j] IN
       IF known = {} THEN Agree(q, j + 1, {ob})
       ELSE LET k == CHOOSE k \in known : TRUE IN
            IF k.o = ob.o THEN Agree(q, j + 1, known)
            ELSE LET n == IF Len(k.o) < Len(ob.o) THEN Len(k.o) ELSE Len(ob.o)
                     at == {i \in 1..n : k.o[i] # ob.o[i]}
                 IN IF at = {} THEN "with " \o k.b \o " there are " \o ToString(Len(k.o)) \o " steps, with " \o ob.b \o " " \o ToString(Len(ob.o))
                    ELSE LET i == CHOOSE i \in at : \A h \in at : i <= h
                         IN "with " \o k.b \o " " \o ToString(k.o[i]) \o ", with " \o ob.b \o " " \o ToString(ob.o[i])

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE LET e == Expect(x)
                   a == Agree(x.obs, 1, {})
                   wrong == {j \in DOMAIN x.obs : \E w \in e : x.obs[j].o # <<w[1], w[2]>>}
               IN IF wrong # {} THEN LET j == CHOOSE j \in wrong : TRUE
                                     IN x.place \o " with " \o ToString(x.items) \o ": " \o ToString(x.obs[j].o) \o " with " \o x.obs[j].b
                                        \o ", expected " \o ToString(e)
                  ELSE a
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
