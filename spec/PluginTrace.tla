----------------------------- MODULE PluginTrace -----------------------------
(* Judges recorded histories of operations on real objects (Plugins).       *)
(* obs[i] = [raised, d, slots (name -> [plug, id, use, load, out]),          *)
(*           reads (kind -> sequence of [tag, n]), ctl]                      *)
EXTENDS Plugins, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Wrong(st, ob) ==
  LET bad == {o \in Slots : LET x == st.s[o]  y == ob.slots[o] IN
                 \/ y.plug # x.plug \/ y.id # x.id \/ y.use # x.use \/ (~Comb(o) /\ y.load # x.load) \/ y.out # OutOf(o, x)}
  IN IF bad # {} THEN LET o == CHOOSE o \in bad : TRUE IN
                      o \o " shows " \o ToString(ob.slots[o]) \o " and should be " \o ToString(<<st.s[o], OutOf(o, st.s[o])>>)
     ELSE ob.ctl
\* each element of a kind is read once, by the reader registered last
Read(x, st, ob) ==
  LET want(t) == IF st.rd[t] = "std" \/ InPol(t, x.p) = 0 THEN <<>> ELSE << [tag |-> st.rd[t], n |-> InPol(t, x.p)] >>
      bad == {t \in Readers : ob.reads[t] # want(t)}
  IN IF ~x.reads \/ bad = {} THEN "" ELSE LET t == CHOOSE t \in bad : TRUE IN
     "readers of " \o t \o " called: " \o ToString(ob.reads[t]) \o " and should be " \o ToString(want(t))
RECURSIVE Walk(_,_,_)
Walk(x, i, st) ==
  IF i > Len(x.ops) THEN ""
  ELSE LET op == x.ops[i]  ob == x.obs[i]  r == Do(st, op)  w == Wrong(r.st, ob)  v == Read(x, r.st, ob)
           at == "after step " \o ToString(i) \o " " \o ToString(op) \o ": "
       IN IF ob.raised = r.ok THEN at \o (IF ob.raised THEN "raised " \o ob.d ELSE "not refused")
          ELSE IF w # "" THEN at \o w ELSE IF v # "" THEN at \o v ELSE Walk(x, i + 1, r.st)
Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE LET w == Wrong(Start, x.first)  v == Read(x, Start, x.first) IN
               IF w # "" THEN "at first: " \o w ELSE IF v # "" THEN "at first: " \o v ELSE Walk(x, 1, Start)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
