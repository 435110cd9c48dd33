------------------------------ MODULE PolicyDoc ------------------------------
(***************************************************************************)
(* What a policy document means: a parser from raw element trees to the    *)
(* content a policy object must carry, and its inverse.                    *)
(*                                                                         *)
(* Raw elements, and how firmly a parse holds: see RawTree.                *)
(***************************************************************************)
EXTENDS RawTree

F1 == "urn:oasis:names:tc:xacml:1.0:function:"
F2 == "urn:oasis:names:tc:xacml:2.0:function:"

RuleAlgs == {"urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:" \o a : a \in {"deny-overrides", "permit-overrides", "first-applicable"}}
PolAlgs  == {"urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:" \o a : a \in {"deny-overrides", "permit-overrides", "first-applicable"}}
EqTypes  == {"string", "anyURI", "integer", "boolean", "double", "date", "time", "dateTime", "dayTimeDuration",
             "yearMonthDuration", "x500Name", "rfc822Name", "hexBinary"}
Funs == {F1 \o t \o "-equal" : t \in EqTypes}
        \cup {F1 \o t \o "-" \o f : t \in {"string", "boolean", "integer", "double", "anyURI", "x500Name", "rfc822Name"},
                                    f \in {"bag", "one-and-only", "at-least-one-member-of"}}
        \cup {F1 \o "and", F1 \o "not", F1 \o "string-regexp-match", F2 \o "anyURI-regexp-match", F2 \o "string-concatenate"}
\* identifiers that certainly name no function / no data type
NoFuns  == {"", "urn:none", F1 \o "strin-equal", F1 \o "string-equals", F1 \o "no-such", F1, "string-equal",
            F1 \o "string-equal ", F1 \o "string-greater-than", F1 \o "or", F1 \o "integer-add"}

(***************************************************************************)
(* Leaves                                                                  *)
(***************************************************************************)
ParseValue(nd) ==
  IF ~Has(nd, "DataType") \/ Att(nd, "DataType") \in NoTypes THEN Res(0, <<>>)
  ELSE IF Att(nd, "DataType") \notin TextTypes \/ nd.text = "" THEN Res(1, <<>>)
  ELSE Res(Both(<<Leaf(nd), Known(nd, {"DataType"})>>),
           [k |-> "lit", t |-> Att(nd, "DataType"), v |-> nd.text])

BoolForms == [t |-> {"true", "1", "True"}, f |-> {"false", "0", "False"}]
MbpOk(nd) == IF ~Has(nd, "MustBePresent") \/ Att(nd, "MustBePresent") \in BoolForms.t \cup BoolForms.f THEN 3 ELSE 1
Mbp(nd)   == Att(nd, "MustBePresent") \in BoolForms.t
TypeOk(nd) == IF Att(nd, "DataType") \in TextTypes \cup OtherTypes THEN 3 ELSE IF Att(nd, "DataType") = "" THEN 1 ELSE 2

DesCat == [SubjectAttributeDesignator |-> "S", ResourceAttributeDesignator |-> "R",
           ActionAttributeDesignator |-> "A", EnvironmentAttributeDesignator |-> "E"]
\* "~" stands for an issuer that is the empty string, "" for none
Issuer(nd) == IF Has(nd, "Issuer") /\ Att(nd, "Issuer") = "" THEN "~" ELSE Att(nd, "Issuer")
ParseDes(nd) ==
  IF Missing(nd, {"AttributeId", "DataType"}) THEN Res(0, <<>>)
  ELSE Res(Both(<<Leaf(nd), Known(nd, {"AttributeId", "DataType", "Issuer", "MustBePresent"}), MbpOk(nd), TypeOk(nd),
                  IF Att(nd, "AttributeId") = "" THEN 2 ELSE 3>>),
           [k |-> "des", cat |-> DesCat[nd.tag], id |-> Att(nd, "AttributeId"), t |-> Att(nd, "DataType"),
            iss |-> Issuer(nd), mbp |-> Mbp(nd)])

ParseSel(nd) ==
  IF Missing(nd, {"RequestContextPath", "DataType"}) THEN Res(0, <<>>)
  ELSE Res(Both(<<Leaf(nd), Known(nd, {"RequestContextPath", "DataType", "MustBePresent"}), MbpOk(nd), TypeOk(nd),
                  IF Att(nd, "RequestContextPath") = "" THEN 2 ELSE 3>>),
           [k |-> "sel", path |-> Att(nd, "RequestContextPath"), t |-> Att(nd, "DataType"), mbp |-> Mbp(nd)])

FunOk(f) == IF f \in Funs THEN 3 ELSE IF f \in NoFuns THEN 0 ELSE 1

(***************************************************************************)
(* Expressions and conditions                                              *)
(***************************************************************************)
Leaves == {"AttributeValue", "AttributeSelector"} \cup DOMAIN DesCat
ParseLeaf(nd) == CASE nd.tag = "AttributeValue" -> ParseValue(nd)
                   [] nd.tag = "AttributeSelector" -> ParseSel(nd)
                   [] OTHER -> ParseDes(nd)

RECURSIVE ParseApply(_)
ParseApply(nd) ==
  LET sub == [i \in DOMAIN nd.kids |->
                CASE nd.kids[i].tag = "Apply" -> ParseApply(nd.kids[i])
                  [] nd.kids[i].tag \in Leaves -> ParseLeaf(nd.kids[i])
                  [] nd.kids[i].tag = "Condition" -> Res(1, <<>>)     \* an expression in XACML 1
                  [] OTHER -> Res(0, <<>>)]
      s == IF ~Has(nd, "FunctionId") THEN 0
           ELSE Both(<<FunOk(Att(nd, "FunctionId")), Known(nd, {"FunctionId"}), Frame(nd), All(sub)>>)
  IN Res(s, [k |-> "app", f |-> Att(nd, "FunctionId"), args |-> Cs(sub)])

ParseCondition(nd) ==
  IF Len(nd.kids) # 1 THEN Res(0, <<>>)
  ELSE LET k == nd.kids[1] IN
       IF k.tag = "Apply" THEN LET r == ParseApply(k) IN Res(Both(<<r.s, Frame(nd), Known(nd, {})>>), r.c)
       ELSE IF k.tag \in Leaves \cup {"Condition", "VariableReference", "Function"} THEN Res(1, <<>>)
       ELSE Res(0, <<>>)

(***************************************************************************)
(* Matches and targets                                                     *)
(***************************************************************************)
CatName == [S |-> "Subject", R |-> "Resource", A |-> "Action", E |-> "Environment"]
Cats == <<"S", "R", "A", "E">>
DesTag(c) == CatName[c] \o "AttributeDesignator"

ParseMatch(nd, c) ==
  LET vs == Kids(nd, "AttributeValue")  ds == Kids(nd, DesTag(c))  ss == Kids(nd, "AttributeSelector")
      sub == [i \in DOMAIN nd.kids |-> ParseLeaf(nd.kids[i])]
      src == IF ds # <<>> THEN ds[1] ELSE ss[1]
  IN IF ~Has(nd, "MatchId") \/ Tags(nd) \ {"AttributeValue", "AttributeSelector", DesTag(c)} # {}
        \/ vs = <<>> \/ (ds = <<>> /\ ss = <<>>) \/ (ds # <<>> /\ ss # <<>>)
     THEN Res(0, <<>>)
     ELSE Res(Both(<<FunOk(Att(nd, "MatchId")), Known(nd, {"MatchId"}), Frame(nd), All(sub),
                     IF Len(vs) > 1 \/ Len(ds) > 1 \/ Len(ss) > 1 THEN 1 ELSE 3,
                     InOrder(nd, <<{"AttributeValue"}, {"AttributeSelector", DesTag(c)}>>)>>),
              [f |-> Att(nd, "MatchId"), v |-> ParseValue(vs[1]).c, src |-> ParseLeaf(src).c])

ParseAlt(nd, c) ==
  LET sub == [i \in DOMAIN nd.kids |-> IF nd.kids[i].tag = CatName[c] \o "Match" THEN ParseMatch(nd.kids[i], c)
                                       ELSE Res(0, <<>>)]
  IN Res(Both(<<All(sub), Frame(nd), Known(nd, {}), IF nd.kids = <<>> THEN 2 ELSE 3>>), Cs(sub))

ParseSect(nd, c) ==
  LET sub == [i \in DOMAIN nd.kids |-> IF nd.kids[i].tag = CatName[c] THEN ParseAlt(nd.kids[i], c) ELSE Res(0, <<>>)]
  IN Res(Both(<<All(sub), Frame(nd), Known(nd, {}), IF nd.kids = <<>> THEN 2 ELSE 3>>), Cs(sub))

SectTag(c) == CatName[c] \o "s"
ParseTarget(nd) ==
  IF Tags(nd) \ {SectTag(c) : c \in RangeOf(Cats)} # {} THEN Res(0, <<>>)
  ELSE LET sect(c) == LET q == Kids(nd, SectTag(c)) IN
             IF q = <<>> THEN Res(3, <<>>)
             ELSE IF Len(q) > 1 THEN Res(IF \E i \in DOMAIN q : ParseSect(q[i], c).s = 0 THEN 0 ELSE 1, <<>>)
             ELSE ParseSect(q[1], c)
           sub == [i \in 1..4 |-> sect(Cats[i])]
       IN Res(Both(<<All(sub), Frame(nd), Known(nd, {}), InOrder(nd, [i \in 1..4 |-> {SectTag(Cats[i])}])>>),
              [S |-> sub[1].c, R |-> sub[2].c, A |-> sub[3].c, E |-> sub[4].c])

(***************************************************************************)
(* Rules, policies, policy sets                                            *)
(***************************************************************************)
\* an optional child: at most one, as a sequence of its content
Opt(nd, tag, P(_)) ==
  LET q == Kids(nd, tag) IN
  IF q = <<>> THEN Res(3, <<>>)
  ELSE IF Len(q) > 1 THEN Res(IF \E i \in DOMAIN q : P(q[i]).s = 0 THEN 0 ELSE 1, <<>>)
  ELSE LET r == P(q[1]) IN Res(r.s, <<r.c>>)

ParseDesc(nd) == Res(Both(<<Leaf(nd), Known(nd, {})>>), Strip(nd.text))
OptText(r) == IF r.c = <<>> THEN "" ELSE r.c[1]

ParseDefaults(nd) ==
  IF Len(nd.kids) = 1 /\ nd.kids[1].tag = "XPathVersion" /\ nd.kids[1].text # "" /\ Leaf(nd.kids[1]) = 3
  THEN Res(Both(<<Frame(nd), Known(nd, {}), Known(nd.kids[1], {})>>), nd.kids[1].text)
  ELSE Res(1, <<>>)

ParseRule(nd) ==
  LET d == Opt(nd, "Description", ParseDesc)
      t == Opt(nd, "Target", ParseTarget)
      c == Opt(nd, "Condition", ParseCondition)
  IN IF Missing(nd, {"RuleId", "Effect"}) \/ Att(nd, "Effect") \notin {"Permit", "Deny"}
        \/ Tags(nd) \ {"Description", "Target", "Condition"} # {}
     THEN Res(0, <<>>)
     ELSE Res(Both(<<d.s, t.s, c.s, Frame(nd), Known(nd, {"RuleId", "Effect"}),
                     InOrder(nd, <<{"Description"}, {"Target"}, {"Condition"}>>),
                     IF Att(nd, "RuleId") = "" THEN 2 ELSE 3>>),
              [id |-> Att(nd, "RuleId"), eff |-> Att(nd, "Effect"), desc |-> OptText(d), tgt |-> t.c, cond |-> c.c])

\* a document without a version has a default one: the schema's 1.0, or the XACML version
Version(nd) == IF Has(nd, "Version") THEN Att(nd, "Version") ELSE "*"
DefaultVersions == {"1.0", "2.0"}

ParsePolicyX(nd) ==
  LET d == Opt(nd, "Description", ParseDesc)
      f == Opt(nd, "PolicyDefaults", ParseDefaults)
      t == Opt(nd, "Target", ParseTarget)
      rs == Kids(nd, "Rule")
      sub == [i \in DOMAIN rs |-> ParseRule(rs[i])]
  IN IF Missing(nd, {"PolicyId", "RuleCombiningAlgId"}) \/ Att(nd, "RuleCombiningAlgId") \notin RuleAlgs
        \/ Tags(nd) \ {"Description", "PolicyDefaults", "Target", "Rule"} # {}
     THEN Res(0, <<>>)
     ELSE Res(Both(<<d.s, f.s, t.s, All(sub), Frame(nd), Known(nd, {"PolicyId", "RuleCombiningAlgId", "Version"}),
                     InOrder(nd, <<{"Description"}, {"PolicyDefaults"}, {"Target"}, {"Rule"}>>),
                     IF t.c = <<>> THEN 2 ELSE 3,
                     IF Distinct([i \in DOMAIN rs |-> Att(rs[i], "RuleId")]) THEN 3 ELSE 0,
                     IF Version(nd) = "" THEN 1 ELSE IF Att(nd, "PolicyId") = "" THEN 2 ELSE 3>>),
              [k |-> "P", id |-> Att(nd, "PolicyId"), alg |-> Att(nd, "RuleCombiningAlgId"), ver |-> Version(nd),
               desc |-> OptText(d), dflt |-> OptText(f), tgt |-> t.c, rules |-> Cs(sub)])

SetKids == {"Policy", "PolicySet", "PolicyIdReference", "PolicySetIdReference"}
RECURSIVE ParseSetX(_)
ParseSetX(nd) ==
  LET d == Opt(nd, "Description", ParseDesc)
      f == Opt(nd, "PolicySetDefaults", ParseDefaults)
      t == Opt(nd, "Target", ParseTarget)
      ps == SelectSeq(nd.kids, LAMBDA k : k.tag \in SetKids)
      sub == [i \in DOMAIN ps |-> CASE ps[i].tag = "Policy" -> ParsePolicyX(ps[i])
                                    [] ps[i].tag = "PolicySet" -> ParseSetX(ps[i])
                                    [] OTHER -> Res(1, <<>>)]         \* references: see PolicyLoad
  IN IF Missing(nd, {"PolicySetId", "PolicyCombiningAlgId"}) \/ Att(nd, "PolicyCombiningAlgId") \notin PolAlgs
        \/ Tags(nd) \ ({"Description", "PolicySetDefaults", "Target"} \cup SetKids) # {}
     THEN Res(0, <<>>)
     ELSE Res(Both(<<d.s, f.s, t.s, All(sub), Frame(nd), Known(nd, {"PolicySetId", "PolicyCombiningAlgId", "Version"}),
                     InOrder(nd, <<{"Description"}, {"PolicySetDefaults"}, {"Target"}, SetKids>>),
                     IF t.c = <<>> THEN 2 ELSE 3,
                     IF Version(nd) = "" THEN 1 ELSE IF Att(nd, "PolicySetId") = "" THEN 2 ELSE 3>>),
              [k |-> "PS", id |-> Att(nd, "PolicySetId"), alg |-> Att(nd, "PolicyCombiningAlgId"), ver |-> Version(nd),
               desc |-> OptText(d), dflt |-> OptText(f), tgt |-> t.c, kids |-> Cs(sub)])

RECURSIVE Ids(_,_)
Ids(nd, tag) == (IF nd.tag = tag THEN <<Att(nd, tag \o "Id")>> ELSE <<>>)
                \o (IF nd.tag = "Policy" THEN <<>> ELSE
                    LET RECURSIVE Cat(_)
                        Cat(i) == IF i > Len(nd.kids) THEN <<>>
                                  ELSE (IF nd.kids[i].tag \in {"Policy", "PolicySet"} THEN Ids(nd.kids[i], tag) ELSE <<>>) \o Cat(i + 1)
                    IN Cat(1))

\* the whole document; within one, ids of one kind are unique (PolicyLoad)
Parse(nd) ==
  LET r == IF nd.tag = "Policy" THEN ParsePolicyX(nd) ELSE IF nd.tag = "PolicySet" THEN ParseSetX(nd) ELSE Res(0, <<>>)
      p == Ids(nd, "Policy")  q == Ids(nd, "PolicySet")
  IN IF nd.tag \in {"Policy", "PolicySet"} /\ r.s >= 2 /\ (~Distinct(p) \/ ~Distinct(q)) THEN Res(0, <<>>)
     ELSE IF r.s >= 2 /\ RangeOf(p) \cap RangeOf(q) # {} THEN Res(2, r.c) ELSE r

\* content c with default versions as in the observed content o
RECURSIVE WithVersions(_,_)
WithVersions(c, o) ==
  IF "ver" \notin DOMAIN o \/ o.k # c.k THEN c
  ELSE LET d == IF c.ver = "*" /\ o.ver \in DefaultVersions THEN [c EXCEPT !.ver = o.ver] ELSE c IN
       IF c.k = "PS" /\ Len(o.kids) = Len(c.kids)
       THEN [d EXCEPT !.kids = [i \in DOMAIN c.kids |-> WithVersions(c.kids[i], o.kids[i])]] ELSE d

(***************************************************************************)
(* The document a content is written as                                    *)
(***************************************************************************)
B(b) == IF b THEN "true" ELSE "false"

RECURSIVE UnExpr(_)
UnExpr(e) ==
  CASE e.k = "lit" -> El("AttributeValue", <<A("DataType", e.t)>>, e.v, <<>>)
    [] e.k = "des" -> El(DesTag(e.cat), <<A("AttributeId", e.id), A("DataType", e.t), A("MustBePresent", B(e.mbp))>>
                                        \o (IF e.iss = "" THEN <<>> ELSE <<A("Issuer", IF e.iss = "~" THEN "" ELSE e.iss)>>), "", <<>>)
    [] e.k = "sel" -> El("AttributeSelector", <<A("RequestContextPath", e.path), A("DataType", e.t),
                                                A("MustBePresent", B(e.mbp))>>, "", <<>>)
    [] e.k = "app" -> El("Apply", <<A("FunctionId", e.f)>>, "", [i \in DOMAIN e.args |-> UnExpr(e.args[i])])
UnMatch(m, c) == El(CatName[c] \o "Match", <<A("MatchId", m.f)>>, "", <<UnExpr(m.v), UnExpr(m.src)>>)
UnTarget(t) ==
  LET sect(c) == IF t[c] = <<>> THEN <<>>
                 ELSE <<El(SectTag(c), <<>>, "", [i \in DOMAIN t[c] |->
                          El(CatName[c], <<>>, "", [j \in DOMAIN t[c][i] |-> UnMatch(t[c][i][j], c)])])>>
  IN El("Target", <<>>, "", sect("S") \o sect("R") \o sect("A") \o sect("E"))
UnTgt(q) == [i \in DOMAIN q |-> UnTarget(q[i])]
UnVersion(v) == IF v = "*" THEN <<>> ELSE <<A("Version", v)>>
UnDesc(x) == Maybe(x, El("Description", <<>>, x, <<>>))
UnRule(r) == El("Rule", <<A("RuleId", r.id), A("Effect", r.eff)>>, "",
                UnDesc(r.desc) \o UnTgt(r.tgt) \o [i \in DOMAIN r.cond |-> El("Condition", <<>>, "", <<UnExpr(r.cond[i])>>)])
UnDefaults(tag, x) == Maybe(x, El(tag, <<>>, "", <<El("XPathVersion", <<>>, x, <<>>)>>))
RECURSIVE Unparse(_)
Unparse(c) ==
  IF c.k = "P"
  THEN El("Policy", <<A("PolicyId", c.id), A("RuleCombiningAlgId", c.alg)>> \o UnVersion(c.ver), "",
          UnDesc(c.desc) \o UnDefaults("PolicyDefaults", c.dflt) \o UnTgt(c.tgt) \o [i \in DOMAIN c.rules |-> UnRule(c.rules[i])])
  ELSE El("PolicySet", <<A("PolicySetId", c.id), A("PolicyCombiningAlgId", c.alg)>> \o UnVersion(c.ver), "",
          UnDesc(c.desc) \o UnDefaults("PolicySetDefaults", c.dflt) \o UnTgt(c.tgt) \o [i \in DOMAIN c.kids |-> Unparse(c.kids[i])])
=============================================================================
