----------------------------- MODULE EvalTrace -----------------------------
(***************************************************************************)
(* Judges recorded evaluations of the real code, one line per step, with   *)
(* the semantics of module Xacml.  A line that is not an allowed           *)
(* observation is reported with the clause it breaks.                      *)
(***************************************************************************)
EXTENDS Xacml, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

\* observed values, with bags compared as multisets
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
SameVal(a, b) ==
  a.s = b.s /\ CASE a.s = "bool" -> a.b = b.b
                 [] a.s = "av"   -> a.t = b.t /\ a.v = b.v
                 [] a.s = "bag"  -> a.t = b.t /\ SameBag(a.vs, b.vs)
                 [] OTHER        -> a.s = "err"
ExactVal(a, b) == SameVal(a, b) /\ (a.s = "bag" => a.vs = b.vs)

PolWhy(x) ==
  IF x.loads # <<>> THEN "a valid policy does not load: " \o x.loads[1]
  ELSE LET bad(j) ==
             LET ok == PolVal(x.p, x.rqs[j]) IN
             { IF o.n # 1 THEN "not exactly one result: " \o o.dec
               ELSE IF o.dec \notin Decisions THEN "no XACML decision: " \o o.dec
               ELSE "request " \o ToString(j) \o ": decision " \o o.dec \o " where the specification allows " \o ToString(ok)
               : o \in {y \in RangeOf(x.obs[j]) : y.n # 1 \/ y.dec \notin ok} }
           all == UNION {bad(j) : j \in DOMAIN x.rqs}
       IN IF all = {} THEN "" ELSE CHOOSE w \in all : TRUE

SeqWhy(x, Allowed(_), Same(_,_)) ==
  LET bad == {j \in DOMAIN x.obs : ~\E y \in Allowed(j) : Same(x.obs[j], y)} IN
  IF bad = {} THEN ""
  ELSE LET j == CHOOSE j \in bad : \A k \in bad : j <= k IN
       "case " \o ToString(j) \o ": observed " \o ToString(x.obs[j]) \o " where the specification allows "
       \o ToString(Allowed(j))

Equal(a, b) == a = b

(* expressions: every expression on every request *)
ExprWhy(x) ==
  LET same(e, rq, a, b) == IF e.k = "des" /\ (e.cat # "S" \/ rq.pip = <<>>) THEN ExactVal(a, b) ELSE SameVal(a, b)
      bad == {ij \in (DOMAIN x.es) \X (DOMAIN x.rqs) :
                ~\E y \in EvalExpr(x.es[ij[1]], x.rqs[ij[2]]) : same(x.es[ij[1]], x.rqs[ij[2]], x.obs[ij[1]][ij[2]], y)}
  IN IF bad = {} THEN ""
     ELSE LET ij == CHOOSE ij \in bad : TRUE IN
          "expression " \o ToString(ij[1]) \o " on request " \o ToString(ij[2]) \o ": observed "
          \o ToString(x.obs[ij[1]][ij[2]]) \o " where the specification allows " \o ToString(EvalExpr(x.es[ij[1]], x.rqs[ij[2]]))

(* the calls the context handler saw: for a designator evaluated on its own *)
CallsWhy(x) ==
  LET ok(i, j) ==
        LET cs == x.calls[i][j]  e == x.es[i]  rq == x.rqs[j] IN
        e.k = "des" =>
          /\ \A k \in DOMAIN cs : cs[k].same /\ cs[k].id = e.id /\ cs[k].cls = "SubjectAttributeDesignator"
          /\ (e.cat # "S" \/ rq.pip = <<>> => cs = <<>>)
          /\ (e.cat = "S" /\ rq.pip # <<>> /\ rq.S # <<>> => cs # <<>>)
      bad == {ij \in (DOMAIN x.es) \X (DOMAIN x.rqs) : ~ok(ij[1], ij[2])}
  IN IF bad = {} THEN ""
     ELSE LET ij == CHOOSE ij \in bad : TRUE IN
          "context handler calls for expression " \o ToString(ij[1]) \o " on request " \o ToString(ij[2]) \o ": "
          \o ToString(x.calls[ij[1]][ij[2]])

Why(x) ==
  IF x.fail # "" THEN "unexpected failure: " \o x.fail
  ELSE IF x.kept # "" THEN "an evaluation altered what a context handler holds: " \o x.kept
  ELSE CASE x.kind \in {"pol", "piphist"} -> PolWhy(x)
         [] x.kind = "tgt"   -> SeqWhy(x, LAMBDA j : TargetVal(x.t, x.rqs[j]), Equal)
         [] x.kind = "match" -> SeqWhy(x, LAMBDA j : MatchVal(x.m, x.rqs[j]), Equal)
         [] x.kind = "rule"  -> SeqWhy(x, LAMBDA j : RuleVal(x.r, x.rqs[j]), Equal)
         [] x.kind = "expr"  -> LET w == ExprWhy(x) IN IF w # "" THEN w ELSE CallsWhy(x)
         [] x.kind = "fun"   -> SeqWhy(x, LAMBDA j : {Apply1(x.fam, x.ft, x.argss[j])}, SameVal)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
