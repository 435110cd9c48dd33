----------------------------- MODULE SessionTrace -----------------------------
(* Judges recorded histories of decision points, requests and responses (Session). *)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* what a request object shows of its own content
Shown(rq) == [S |-> rq.S, R |-> rq.R, A |-> rq.A, E |-> rq.E, doc |-> rq.doc]

EvalWhy(st, e, rs) ==
  IF Len(rs) # 1 THEN "a response with " \o ToString(Len(rs)) \o " results: " \o ToString(rs)
  ELSE IF rs[1].dec \notin Answer(st, e)
       THEN "decision " \o rs[1].dec \o " for " \o ToString(e) \o " where the specification allows " \o ToString(Answer(st, e))
  ELSE ""

RECURSIVE FirstWhy(_,_,_,_)
FirstWhy(st, es, rss, i) ==
  IF i > Len(es) THEN "" ELSE LET w == EvalWhy(st, es[i], rss[i]) IN IF w # "" THEN w ELSE FirstWhy(st, es, rss, i + 1)

\* the state after an operation, given what was observed of it
Post(st, op, ob) ==
  CASE op.o = "eval" -> [st EXCEPT !.resps = Append(@, ob.new)]
    [] op.o = "par"  -> st
    [] op.o = "rval" /\ ob.raised -> st
    [] OTHER -> Edited(st, op)

RECURSIVE Walk(_,_,_)
Walk(x, i, st) ==
  IF i > Len(x.ops) THEN ""
  ELSE LET op == x.ops[i]  ob == x.obs[i]
           at == "operation " \o ToString(i) \o " " \o op.o \o ": "
           bad == CASE op.o = "eval" -> EvalWhy(st, op, ob.new)
                    [] op.o = "par" -> LET q == {FirstWhy(st, op.es, ob.vecs[v], 1) : v \in DOMAIN ob.vecs} \ {""} IN
                                       IF q = {} THEN "" ELSE "overlapping evaluations: " \o CHOOSE w \in q : TRUE
                    [] OTHER -> ""
       IN IF bad # "" THEN at \o bad
          ELSE LET next == Post(st, op, ob) IN
               IF ob.raised /\ op.o # "rval" THEN at \o "raised " \o ob.d
               ELSE IF ob.pols # x.pols0 THEN at \o "a policy changed"
               ELSE IF \E r \in DOMAIN next.rqs : ob.rqs[r] # Shown(next.rqs[r])
               THEN at \o "a request says " \o ToString(ob.rqs) \o " and should say " \o ToString([r \in DOMAIN next.rqs |-> Shown(next.rqs[r])])
               ELSE IF ob.resps # next.resps
               THEN at \o "the responses say " \o ToString(ob.resps) \o " and should say " \o ToString(next.resps)
               ELSE Walk(x, i + 1, next)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF Len(x.obs) # Len(x.ops) THEN "history not completed" ELSE Walk(x, 1, InitS(x.pols, x.rqs, x.pdps))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
