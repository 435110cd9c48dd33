------------------------------- MODULE Xacml -------------------------------
(***************************************************************************)
(* Denotational XACML 2.0 semantics of everything ndg_xacml evaluates:     *)
(* attribute values, bags, functions, designators (with the external       *)
(* attribute lookup), selectors, matches, targets, conditions, rules,      *)
(* policies and policy sets, with the Appendix C combining algorithms.     *)
(*                                                                         *)
(* Evaluation is SET-VALUED: XACML leaves it open whether an evaluator     *)
(* looks at every part of a target once the match tables have settled the  *)
(* result, so where an error sits next to a part that already decides the  *)
(* value, both the decided value and the error are allowed.  Everything    *)
(* else is a singleton.                                                    *)
(*                                                                         *)
(* Abstract syntax (also the JSON wire format of the conformance traces):  *)
(*  value    [s|->"av",t,v] | [s|->"bool",b] | [s|->"bag",t,vs] | [s|->"err"]*)
(*  expr     [k|->"lit",t,v] | [k|->"des",cat,id,t,iss,mbp]                *)
(*         | [k|->"sel",path,t,mbp] | [k|->"app",fam,ft,args]              *)
(*  match    [fam,ft,t,v,src]     (literal t,v ; src a des or sel)         *)
(*  target   [S,R,A,E] each a sequence of sequences of matches             *)
(*  rule     [id,eff,tgt,cond]    tgt, cond: sequences of length 0 or 1    *)
(*  policy   [k|->"P",id,alg,tgt,rules] | [k|->"PS",id,alg,tgt,kids]       *)
(*  request  [S,R,A,E,pip,doc]: S,R sequences of sequences of attributes;  *)
(*           A,E sequences (length 0 or 1) of those; attribute             *)
(*           [id,t,iss,vals] vals a sequence of value texts;               *)
(*           with vt, a sequence of their types, if those differ from t;   *)
(*           pip: sequence (0 or 1) of tables [dflt, tab]; doc: sequence   *)
(*           (0 or 1) of XML trees [tag, text, at, kids]                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Decisions == {"Permit", "Deny", "NotApplicable", "Indeterminate"}
Algs      == {"deny-overrides", "permit-overrides", "first-applicable"}
Effects   == {"Permit", "Deny"}

Err       == [s |-> "err"]
Bool(x)   == [s |-> "bool", b |-> x]
Av(t, x)  == [s |-> "av", t |-> t, v |-> x]
Bag(t, q) == [s |-> "bag", t |-> t, vs |-> q]

RangeOf(q) == {q[i] : i \in DOMAIN q}

RECURSIVE FlatSeq(_)
FlatSeq(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o FlatSeq(Tail(qq))

\* the set of all sequences picking one element from each set of the sequence
RECURSIVE Choices(_)
Choices(q) == IF q = <<>> THEN {<<>>}
              ELSE {<<x>> \o r : x \in Head(q), r \in Choices(Tail(q))}

(***************************************************************************)
(* Combining algorithms: Appendix C pseudo-code, as folds over the ordered *)
(* outcomes.  o is an outcome, e the effect of the rule that produced it.  *)
(***************************************************************************)
RECURSIVE DenyOverRules(_,_,_,_)
DenyOverRules(q, err, pot, perm) ==
  IF q = <<>> THEN IF pot THEN "Indeterminate"
                   ELSE IF perm THEN "Permit"
                   ELSE IF err THEN "Indeterminate" ELSE "NotApplicable"
  ELSE LET h == Head(q) IN
       CASE h.o = "Deny"          -> "Deny"
         [] h.o = "Permit"        -> DenyOverRules(Tail(q), err, pot, TRUE)
         [] h.o = "NotApplicable" -> DenyOverRules(Tail(q), err, pot, perm)
         [] OTHER -> DenyOverRules(Tail(q), TRUE, pot \/ h.e = "Deny", perm)

RECURSIVE PermitOverRules(_,_,_,_)
PermitOverRules(q, err, pot, den) ==
  IF q = <<>> THEN IF pot THEN "Indeterminate"
                   ELSE IF den THEN "Deny"
                   ELSE IF err THEN "Indeterminate" ELSE "NotApplicable"
  ELSE LET h == Head(q) IN
       CASE h.o = "Permit"        -> "Permit"
         [] h.o = "Deny"          -> PermitOverRules(Tail(q), err, pot, TRUE)
         [] h.o = "NotApplicable" -> PermitOverRules(Tail(q), err, pot, den)
         [] OTHER -> PermitOverRules(Tail(q), TRUE, pot \/ h.e = "Permit", den)

RECURSIVE FirstApp(_)
FirstApp(q) == IF q = <<>> THEN "NotApplicable"
               ELSE IF Head(q) = "NotApplicable" THEN FirstApp(Tail(q)) ELSE Head(q)

Outs(q) == [i \in DOMAIN q |-> q[i].o]

CombineRules(alg, q) ==
  CASE alg = "deny-overrides"   -> DenyOverRules(q, FALSE, FALSE, FALSE)
    [] alg = "permit-overrides" -> PermitOverRules(q, FALSE, FALSE, FALSE)
    [] alg = "first-applicable" -> FirstApp(Outs(q))

CombinePolicies(alg, q) ==
  LET os == RangeOf(q) IN
  CASE alg = "deny-overrides" ->
         IF os \cap {"Deny", "Indeterminate"} # {} THEN "Deny"
         ELSE IF "Permit" \in os THEN "Permit" ELSE "NotApplicable"
    [] alg = "permit-overrides" ->
         IF "Permit" \in os THEN "Permit" ELSE IF "Deny" \in os THEN "Deny"
         ELSE IF "Indeterminate" \in os THEN "Indeterminate" ELSE "NotApplicable"
    [] alg = "first-applicable" -> FirstApp(q)

(***************************************************************************)
(* Regular expressions on texts: literals, '.', '^', '$', '\c', '\d',      *)
(* '\w', '\s', '\D', '\W', '\S', classes '[a-cx]' and '[^a-cx]', groups     *)
(* '(...)', alternation '|', and '*', '+', '?', '{n}', '{n,}', '{n,m}'     *)
(* (one digit each).                                                       *)
(* A pattern takes a set of positions of the text to the set of positions  *)
(* it can reach.  Matching starts at the start of the text, as the code    *)
(* documents, and may end anywhere.                                        *)
(***************************************************************************)
Ch(x, i) == SubSeq(x, i, i)
Drop(x, n) == SubSeq(x, n + 1, Len(x))

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ords == [c \in {Ch(Printable, i) : i \in 1..Len(Printable)} |-> CHOOSE i \in 1..Len(Printable) : Ch(Printable, i) = c]
Between(lo, c, hi) == c \in DOMAIN Ords /\ Ords[lo] <= Ords[c] /\ Ords[c] <= Ords[hi]
Digit(c) == Between("0", c, "9")
Word(c)  == Digit(c) \/ Between("a", c, "z") \/ Between("A", c, "Z") \/ c = "_"
Blank(c) == c \in {" ", "\t", "\n", "\r", "\f"}

RECURSIVE ClassEnd(_,_)
ClassEnd(p, i) == IF Ch(p, i) = "]" THEN i ELSE ClassEnd(p, i + 1)
\* the end of the group that is open at position i of p, d groups deep
RECURSIVE GroupEnd(_,_,_)
GroupEnd(p, i, d) ==
  CASE Ch(p, i) = "\\" -> GroupEnd(p, i + 2, d)
    [] Ch(p, i) = "["  -> GroupEnd(p, ClassEnd(p, i + 1) + 1, d)
    [] Ch(p, i) = "("  -> GroupEnd(p, i + 1, d + 1)
    [] Ch(p, i) = ")"  -> IF d = 1 THEN i ELSE GroupEnd(p, i + 1, d - 1)
    [] OTHER           -> GroupEnd(p, i + 1, d)
\* length of the first atom of a non-empty pattern
AtomLen(p) == CASE Ch(p, 1) = "\\" -> 2
                [] Ch(p, 1) = "["  -> ClassEnd(p, 2)
                [] Ch(p, 1) = "("  -> GroupEnd(p, 2, 1)
                [] OTHER           -> 1
\* where the first alternative ends: 0 if there is only one
RECURSIVE BarAt(_,_)
BarAt(p, i) == IF i > Len(p) THEN 0 ELSE IF Ch(p, i) = "|" THEN i ELSE BarAt(p, i + AtomLen(Drop(p, i - 1)))

\* a class without its brackets
RECURSIVE InClass(_,_)
InClass(k, c) ==
  IF k = "" THEN FALSE
  ELSE IF Len(k) >= 3 /\ Ch(k, 2) = "-" THEN Between(Ch(k, 1), c, Ch(k, 3)) \/ InClass(Drop(k, 3), c)
  ELSE Ch(k, 1) = c \/ InClass(Drop(k, 1), c)
AtomHits(p, c) ==
  CASE Ch(p, 1) = "\\" -> (CASE Ch(p, 2) = "d" -> Digit(c) [] Ch(p, 2) = "w" -> Word(c) [] Ch(p, 2) = "s" -> Blank(c)
                             [] Ch(p, 2) = "D" -> ~Digit(c) [] Ch(p, 2) = "W" -> ~Word(c) [] Ch(p, 2) = "S" -> ~Blank(c)
                             [] OTHER -> Ch(p, 2) = c)
    [] Ch(p, 1) = "["  -> IF Ch(p, 2) = "^" THEN ~InClass(SubSeq(p, 3, Len(p) - 1), c)
                          ELSE InClass(SubSeq(p, 2, Len(p) - 1), c)
    [] Ch(p, 1) = "."  -> c # "\n"
    [] OTHER           -> Ch(p, 1) = c

Num(c) == Ords[c] - Ords["0"]
\* what follows an atom: [lo, hi, len]; hi = 10 stands for any number
Quant(p) ==
  CASE p = "" -> [lo |-> 1, hi |-> 1, len |-> 0]
    [] Ch(p, 1) = "*" -> [lo |-> 0, hi |-> 10, len |-> 1]
    [] Ch(p, 1) = "+" -> [lo |-> 1, hi |-> 10, len |-> 1]
    [] Ch(p, 1) = "?" -> [lo |-> 0, hi |-> 1, len |-> 1]
    [] Ch(p, 1) = "{" -> IF Ch(p, 3) = "}" THEN [lo |-> Num(Ch(p, 2)), hi |-> Num(Ch(p, 2)), len |-> 3]
                         ELSE IF Ch(p, 4) = "}" THEN [lo |-> Num(Ch(p, 2)), hi |-> 10, len |-> 4]
                         ELSE [lo |-> Num(Ch(p, 2)), hi |-> Num(Ch(p, 4)), len |-> 5]
    [] OTHER -> [lo |-> 1, hi |-> 1, len |-> 0]

RECURSIVE Reach(_,_,_), AtomReach(_,_,_), Times(_,_,_,_), AnyTimes(_,_,_,_), UpTo(_,_,_,_)
AtomReach(a, x, at) ==
  CASE at = {}       -> {}
    [] Ch(a, 1) = "(" -> Reach(SubSeq(a, 2, Len(a) - 1), x, at)
    [] a = "^"       -> at \cap {0}
    [] a = "$"       -> {i \in at : Drop(x, i) \in {"", "\n"}}          \* as in Python
    [] OTHER         -> {i + 1 : i \in {j \in at : j < Len(x) /\ AtomHits(a, Ch(x, j + 1))}}
Times(a, x, at, n) == IF n = 0 THEN at ELSE Times(a, x, AtomReach(a, x, at), n - 1)
UpTo(a, x, at, n) == IF n = 0 THEN at ELSE at \cup UpTo(a, x, AtomReach(a, x, at), n - 1)
AnyTimes(a, x, at, seen) == IF at \subseteq seen THEN seen ELSE AnyTimes(a, x, AtomReach(a, x, at \ seen), seen \cup at)
Reach(p, x, at) ==
  LET bar == BarAt(p, 1) IN
  IF p = "" \/ at = {} THEN at
  ELSE IF bar # 0 THEN Reach(SubSeq(p, 1, bar - 1), x, at) \cup Reach(Drop(p, bar), x, at)
  ELSE LET n == AtomLen(p)
           a == SubSeq(p, 1, n)
           q == Quant(Drop(p, n))
           m == Times(a, x, at, q.lo)
       IN Reach(Drop(p, n + q.len), x, IF q.hi = 10 THEN AnyTimes(a, x, m, {}) ELSE UpTo(a, x, m, q.hi - q.lo))

ReMatch(p, x) == Reach(p, x, {0}) # {}

\* the malformed patterns the generators use; re.compile refuses them
BadPatterns == {"*", "(", "[a", "a**"}

(***************************************************************************)
(* Functions.  Apply1 is total: wrong arity or type gives Err.             *)
(***************************************************************************)
\* type of the first argument of a concatenate function
ConcatType(ft) == IF ft = "url-string" THEN "anyURI" ELSE ft
EqType(ft) == IF ft = "xpath-node" THEN "string" ELSE ft

IsAv(x, t)  == x.s = "av" /\ x.t = t
IsBag(x, t) == x.s = "bag" /\ x.t = t

RECURSIVE JoinV(_)
JoinV(q) == IF q = <<>> THEN "" ELSE Head(q).v \o JoinV(Tail(q))

\* texts of the pool of values that write the same value
Canon(t, v) == CASE t = "double" /\ v = "-0.0" -> "0.0"
                 [] t = "dateTime" /\ v = "2010-01-02T04:04:05+01:00" -> "2010-01-02T03:04:05+00:00"
                 [] OTHER -> v

Apply1(fam, ft, a) ==
  LET n == Len(a) IN
  IF \E i \in 1..n : a[i].s = "err" THEN Err ELSE
  CASE fam \in {"equal", "match"} ->
         IF n = 2 /\ IsAv(a[1], EqType(ft)) /\ IsAv(a[2], EqType(ft))
         THEN Bool(Canon(ft, a[1].v) = Canon(ft, a[2].v)) ELSE Err
    [] fam = "regexp-match" ->
         IF n = 2 /\ IsAv(a[1], ft) /\ IsAv(a[2], ft)
         THEN IF a[1].v \in BadPatterns THEN Err ELSE Bool(ReMatch(a[1].v, a[2].v)) ELSE Err
    [] fam = "and" ->
         IF \A i \in 1..n : a[i].s = "bool"
         THEN Bool(\A i \in 1..n : a[i].b) ELSE Err
    [] fam = "not" ->
         IF n = 1 /\ a[1].s = "bool" THEN Bool(~a[1].b) ELSE Err
    [] fam = "bag" ->
         IF \A i \in 1..n : IsAv(a[i], ft)
         THEN Bag(ft, [i \in 1..n |-> a[i].v]) ELSE Err
    [] fam = "one-and-only" ->
         IF n = 1 /\ IsBag(a[1], ft) /\ Len(a[1].vs) = 1 THEN Av(ft, a[1].vs[1]) ELSE Err
    [] fam = "at-least-one-member-of" ->
         IF n = 2 /\ IsBag(a[1], ft) /\ IsBag(a[2], ft)
         THEN Bool({Canon(ft, v) : v \in RangeOf(a[1].vs)} \cap {Canon(ft, v) : v \in RangeOf(a[2].vs)} # {}) ELSE Err
    [] fam = "concatenate" ->
         IF n >= 2 /\ IsAv(a[1], ConcatType(ft)) /\ \A i \in 2..n : IsAv(a[i], "string")
         THEN Av(ConcatType(ft), JoinV(a)) ELSE Err
    [] fam = "custom-true"  -> Bool(TRUE)      \* custom functions of the harness
    [] fam = "custom-false" -> Bool(FALSE)
    [] fam = "custom-script" ->
         IF n = 2 /\ a[2].s = "av" /\ Len(a[2].v) > 0 /\ Ch(a[2].v, 1) \in {"t", "f"}
         THEN Bool(Ch(a[2].v, 1) = "t") ELSE Err
    [] fam = "custom-echo"  -> IF n = 1 THEN a[1] ELSE Err
    [] OTHER -> Err      \* raises, or gives something that is no XACML value

\* XACML lets "and" stop at its first false argument, so an error in another
\* argument may go unnoticed; every other function needs all its arguments.
ApplyAll(fam, ft, a) ==
  {Apply1(fam, ft, a)} \cup
  (IF fam = "and" /\ \E i \in DOMAIN a : a[i] = Bool(FALSE) THEN {Bool(FALSE)} ELSE {})

(***************************************************************************)
(* Retrieval of request values                                             *)
(***************************************************************************)
AttrHits(d, a) == a.id = d.id /\ a.t = d.t /\ (d.iss = "" \/ a.iss = d.iss)

\* the types of an attribute's values: its own, unless they are listed one by one
ValTypes(a) == IF "vt" \in DOMAIN a THEN a.vt ELSE [i \in DOMAIN a.vals |-> a.t]
\* values of another type than their attribute's stay out
OwnVals(a) ==
  IF "vt" \notin DOMAIN a THEN a.vals
  ELSE LET q == SelectSeq([i \in DOMAIN a.vals |-> <<a.vals[i], a.vt[i]>>], LAMBDA x : x[2] = a.t)
       IN [i \in DOMAIN q |-> q[i][1]]

RECURSIVE AttrVals(_,_)
AttrVals(d, attrs) ==
  IF attrs = <<>> THEN <<>>
  ELSE (IF AttrHits(d, Head(attrs)) THEN OwnVals(Head(attrs)) ELSE <<>>) \o AttrVals(d, Tail(attrs))

\* Answer of the external attribute lookup for a designator:
\*   [out|->"none"] | [out|->"raise"] | [out|->"vals", t, vals]
PipFor(p, d) ==
  LET hits == {i \in DOMAIN p.tab : p.tab[i].id = d.id} IN
  IF hits = {} THEN [out |-> "none", t |-> d.t, vals |-> <<>>]
  ELSE p.tab[CHOOSE i \in hits : \A j \in hits : i <= j]

PipBad(p, d) == LET r == PipFor(p, d) IN
  r.out = "raise" \/ (r.out = "vals" /\ \E i \in DOMAIN r.vals : ValTypes(r)[i] # d.t)
PipVals(p, d) == LET r == PipFor(p, d) IN IF r.out = "vals" THEN r.vals ELSE <<>>

NotIn(t, q, bag) == SelectSeq(q, LAMBDA x : Canon(t, x) \notin {Canon(t, y) : y \in RangeOf(bag)})

\* per subject: its own values, then what the lookup adds
RECURSIVE SubjVals(_,_,_,_)
SubjVals(d, subs, pip, bag) ==
  IF subs = <<>> THEN bag
  ELSE LET b1 == bag \o AttrVals(d, Head(subs))
           b2 == IF pip = <<>> THEN b1 ELSE b1 \o NotIn(d.t, PipVals(pip[1], d), b1)
       IN SubjVals(d, Tail(subs), pip, b2)

DesBag(d, rq) ==
  CASE d.cat = "S" -> SubjVals(d, rq.S, rq.pip, <<>>)
    [] d.cat = "R" -> AttrVals(d, FlatSeq(rq.R))
    [] d.cat = "A" -> AttrVals(d, FlatSeq(rq.A))
    [] d.cat = "E" -> AttrVals(d, FlatSeq(rq.E))

DesErr(d, rq) ==
  \/ d.cat = "S" /\ rq.pip # <<>> /\ rq.S # <<>> /\ PipBad(rq.pip[1], d)
  \/ d.mbp /\ DesBag(d, rq) = <<>>

\* an object that is no request at all has no attributes to give
NotRequest(rq) == "bad" \in DOMAIN rq
EvalDes(d, rq) == IF NotRequest(rq) THEN Err ELSE IF DesErr(d, rq) THEN Err ELSE Bag(d.t, DesBag(d, rq))

(***************************************************************************)
(* Selectors: location paths, a sequence of steps                          *)
(*   [ax|->"child"|"desc", n|->tag or "*", pa|->"" or an attribute name,   *)
(*    pv|->its value]  evaluated from the document root; text of the nodes.*)
(***************************************************************************)
RECURSIVE Descend(_)
Descend(nd) == <<nd>> \o FlatSeq([i \in DOMAIN nd.kids |-> Descend(nd.kids[i])])

StepHits(st, nd) == /\ st.n \in {"*", nd.tag}
                    /\ st.pa = "" \/ \E i \in DOMAIN nd.at : nd.at[i].n = st.pa /\ nd.at[i].v = st.pv

StepFrom(st, nd) ==
  SelectSeq(IF st.ax = "child" THEN nd.kids
            ELSE Tail(Descend(nd)),
            LAMBDA x : StepHits(st, x))

RECURSIVE PathFrom(_,_)
PathFrom(path, nds) ==
  IF path = <<>> THEN nds
  ELSE PathFrom(Tail(path), FlatSeq([i \in DOMAIN nds |-> StepFrom(Head(path), nds[i])]))

SelTexts(path, doc) == LET r == PathFrom(path, <<doc>>) IN [i \in DOMAIN r |-> r[i].text]

StringTypes == {"string", "anyURI", "x500Name", "rfc822Name", "ipAddress", "dnsName"}
OtherTypes  == {"integer", "boolean", "double", "date", "dateTime", "time", "hexBinary",
                "dayTimeDuration", "yearMonthDuration"}   \* texts are not converted to these

EvalSel(e, rq) ==
  IF NotRequest(rq) THEN Err ELSE IF rq.doc = <<>> \/ e.t \notin StringTypes \cup OtherTypes THEN Err
  ELSE LET q == SelTexts(e.path, rq.doc[1]) IN
       IF (q = <<>> /\ e.mbp) \/ (q # <<>> /\ e.t \in OtherTypes) THEN Err ELSE Bag(e.t, q)

(***************************************************************************)
(* Expressions, matches, targets                                           *)
(***************************************************************************)
RECURSIVE EvalExpr(_,_)
EvalExpr(e, rq) ==
  CASE e.k = "lit" -> {Av(e.t, e.v)}
    [] e.k = "des" -> {EvalDes(e, rq)}
    [] e.k = "sel" -> {EvalSel(e, rq)}
    [] e.k = "app" ->
         UNION {ApplyAll(e.fam, e.ft, c) :
                  c \in Choices([i \in DOMAIN e.args |-> EvalExpr(e.args[i], rq)])}

\* Three-valued results "T", "F", "E".  Or3/And3: all allowed outcomes.
Or3(q) ==
  LET os == RangeOf(q) IN
  (IF "E" \in os THEN {"E"} ELSE {}) \cup
  (IF "T" \in os THEN {"T"} ELSE IF "E" \in os THEN {} ELSE {"F"})
And3(q) ==
  LET os == RangeOf(q) IN
  (IF "E" \in os THEN {"E"} ELSE {}) \cup
  (IF "F" \in os THEN {"F"} ELSE IF "E" \in os THEN {} ELSE {"T"})

Lift(Op(_), qs) == UNION {Op(c) : c \in Choices(qs)}

Tri(x) == IF x.s # "bool" THEN "E" ELSE IF x.b THEN "T" ELSE "F"
\* a condition may also be an XACML boolean value: it stands for what it holds
TriCond(x) == IF x.s = "av" /\ x.t = "boolean" THEN IF x.v = "true" THEN "T" ELSE "F"
              ELSE Tri(x)

MatchVal(m, rq) ==
  LET b == IF m.src.k = "des" THEN EvalDes(m.src, rq) ELSE EvalSel(m.src, rq) IN
  IF b.s = "err" THEN {"E"}
  ELSE Or3([i \in DOMAIN b.vs |-> Tri(Apply1(m.fam, m.ft, <<Av(m.t, m.v), Av(b.t, b.vs[i])>>))])

ElemVal(ms, rq) == Lift(And3, [i \in DOMAIN ms |-> MatchVal(ms[i], rq)])
SectVal(q, rq)  == IF q = <<>> THEN {"T"}
                   ELSE Lift(Or3, [i \in DOMAIN q |-> ElemVal(q[i], rq)])
TargetVal(t, rq) == Lift(And3, <<SectVal(t.S, rq), SectVal(t.R, rq), SectVal(t.A, rq), SectVal(t.E, rq)>>)
OptTarget(q, rq) == IF q = <<>> THEN {"T"} ELSE TargetVal(q[1], rq)

(***************************************************************************)
(* Rules, policies, policy sets                                            *)
(***************************************************************************)
CondVal(q, rq) == IF q = <<>> THEN {"T"} ELSE {TriCond(x) : x \in EvalExpr(q[1], rq)}

RuleTable(t, c, eff) ==
  CASE t = "E" -> "Indeterminate" [] t = "F" -> "NotApplicable"
    [] OTHER -> CASE c = "E" -> "Indeterminate" [] c = "F" -> "NotApplicable" [] OTHER -> eff

RuleVal(r, rq) == {RuleTable(t, c, r.eff) : t \in OptTarget(r.tgt, rq), c \in CondVal(r.cond, rq)}

RECURSIVE PolVal(_,_)
PolVal(p, rq) ==
  UNION { CASE t = "E" -> {"Indeterminate"}
            [] t = "F" -> {"NotApplicable"}
            [] OTHER ->
               IF p.k = "P"
               THEN {CombineRules(p.alg, c) :
                       c \in Choices([i \in DOMAIN p.rules |->
                              {[o |-> o, e |-> p.rules[i].eff] : o \in RuleVal(p.rules[i], rq)}])}
               ELSE {CombinePolicies(p.alg, c) :
                       c \in Choices([i \in DOMAIN p.kids |-> PolVal(p.kids[i], rq)])}
          : t \in OptTarget(p.tgt, rq) }
=============================================================================
