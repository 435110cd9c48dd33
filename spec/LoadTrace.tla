------------------------------ MODULE LoadTrace ------------------------------
(* Judges recorded sequences of loads (PolicyLoad). *)
EXTENDS PolicyLoad, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Walk(_,_,_)
\* cur: <<>> or the tree the decision point kept between loads has
Walk(x, i, cur) ==
  IF i > Len(x.loads) THEN ""
  ELSE LET ld == x.loads[i]  ob == x.obs[i]  r == LoadOf(ld)
           next == IF ld.pdp = "set" /\ r.ok THEN <<r.tree>> ELSE cur
           at == "load " \o ToString(i) \o ": "
       IN IF r.ok /\ ~ob.ok THEN at \o "a resolvable document set does not load: " \o ob.d
          ELSE IF ~r.ok /\ ob.ok THEN at \o "a document set that must be refused loads as " \o ToString(ob.tree)
          ELSE IF r.ok /\ ob.tree # r.tree THEN at \o "loaded " \o ToString(ob.tree) \o " where the documents say " \o ToString(r.tree)
          ELSE IF ob.after # next THEN at \o "the decision point holds " \o ToString(ob.after) \o " and should hold " \o ToString(next)
          ELSE Walk(x, i + 1, next)

\* loads that overlap come out as each of them does alone
Apart(x) ==
  LET want == [i \in DOMAIN x.loads |-> LoadOf(x.loads[i])]
      Off(v) == {i \in DOMAIN v : v[i].ok # want[i].ok \/ (v[i].ok /\ v[i].tree # want[i].tree)}
      bad == {n \in DOMAIN x.vecs : Off(x.vecs[n]) # {}}
  IN IF bad = {} THEN ""
     ELSE LET v == x.vecs[CHOOSE n \in bad : TRUE]  i == CHOOSE i \in Off(v) : TRUE
          IN "load " \o ToString(i) \o " of those that overlap: "
             \o (IF v[i].ok THEN "loaded " \o ToString(v[i].tree) ELSE "raises " \o v[i].d)
             \o " where the documents say " \o (IF want[i].ok THEN ToString(want[i].tree) ELSE "it must be refused")

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF x.kind = "load.par" THEN Apart(x)
          ELSE IF Len(x.obs) # Len(x.loads) THEN "history not completed" ELSE Walk(x, 1, <<>>)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
