--------------------------- MODULE DataTypesTrace ---------------------------
(* Judges recorded histories of real registrations and uses (DataTypes).    *)
(* obs[k] = [ok, d, ret, m, old, own, hs]: the classes given by a new       *)
(* factory, by one made at the start, and by one with a map of its own      *)
(* (never added to), and every value's class, data type and content         *)
EXTENDS DataTypes, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* as recorded: <<identifier, class>> pairs
Pairs(m) == {<<i, m[i]>> : i \in DOMAIN m}
Set(q) == {q[k] : k \in DOMAIN q}
Content(h) == [i \in DOMAIN h |-> <<h[i].c, h[i].dt, h[i].v>>]
RECURSIVE Bad(_,_,_)
Bad(x, s, k) ==
  IF k > Len(x.tr) THEN ""
  ELSE LET o == x.tr[k]
           ob == x.obs[k]
           all == Do(s, o)
           hits == {r \in all : r.ok = ob.ok /\ Content(r.s.h) = ob.hs /\ Pairs(r.s.m) = Set(ob.m) /\ (r.ok => r.ret = ob.ret)}
           step == "step " \o ToString(k) \o " " \o ToString(o) \o ": "
       IN IF hits = {}
          THEN step \o (IF ob.ok THEN "gives " \o ob.ret ELSE "raises " \o ob.d)
               \o (IF \A r \in all : Pairs(r.s.m) # Set(ob.m) THEN ", the classes are now " \o ToString(Set(ob.m) \ Pairs(Std)) ELSE "")
               \o ", values " \o ToString(ob.hs) \o ", allowed: " \o ToString({<<r.ok, r.ret, Content(r.s.h)>> : r \in all})
          ELSE IF Set(ob.old) # Set(ob.m) THEN step \o "a factory made before gives " \o ToString(Set(ob.old) \ Set(ob.m)) \o " where a new one gives "
               \o ToString(Set(ob.m) \ Set(ob.old))
          ELSE IF Set(ob.own) # {<<XS \o "string", "K1">>} THEN step \o "a factory with a map of its own gives " \o ToString(ob.own)
          ELSE Bad(x, (CHOOSE r \in hits : TRUE).s, k + 1)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF Set(x.start) # Pairs(Std) THEN "the classes at the start are " \o ToString(x.start)
          ELSE Bad(x, Start, 1)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
