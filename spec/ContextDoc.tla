----------------------------- MODULE ContextDoc -----------------------------
(***************************************************************************)
(* What request and response documents mean: a parser from raw element     *)
(* trees (RawTree) to content, its inverse, and the edits a program may    *)
(* make to the objects in between.                                         *)
(*                                                                         *)
(* attribute [id, dt, iss, vals]    iss: sequence of at most one string    *)
(* request   [k |-> "RQ", S, R, A, E]  S: subjects [cat, at];              *)
(*           R: resources [content, at], content at most one raw tree;     *)
(*           A, E: sequences of at most one sequence of attributes         *)
(* response  [k |-> "RS", rs]  results [rid, dec, st, ob];                 *)
(*           st at most one [code, msg]; ob at most one [id, on]            *)
(***************************************************************************)
EXTENDS RawTree

Decisions == {"Permit", "Deny", "NotApplicable", "Indeterminate"}
ST == "urn:oasis:names:tc:xacml:1.0:status:"
Codes == {ST \o "ok", ST \o "missing-attribute", ST \o "processing-error", ST \o "syntax-error"}

OptAtt(nd, n) == IF Has(nd, n) THEN <<Att(nd, n)>> ELSE <<>>
Concat(q) == LET RECURSIVE F(_)
                 F(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o F(i + 1)
             IN F(1)

(***************************************************************************)
(* Requests                                                                *)
(***************************************************************************)
ParseAttr(nd) ==
  LET vs == Kids(nd, "AttributeValue") IN
  IF nd.ns # "" THEN Res(1, <<>>)
  ELSE IF Missing(nd, {"AttributeId", "DataType"}) \/ vs = <<>> \/ Att(nd, "DataType") \in NoTypes THEN Res(0, <<>>)
  ELSE IF Att(nd, "DataType") \notin TextTypes THEN Res(1, <<>>)
  ELSE Res(Both(<<Frame(nd), Known(nd, {"AttributeId", "DataType", "Issuer"}),
                  IF Tags(nd) = {"AttributeValue"} THEN 3 ELSE 2,
                  IF Att(nd, "AttributeId") = "" THEN 2 ELSE 3,
                  All([i \in DOMAIN vs |-> Res(Both(<<Leaf(vs[i]), Known(vs[i], {})>>), <<>>)])>>),
           [id |-> Att(nd, "AttributeId"), dt |-> Att(nd, "DataType"), iss |-> OptAtt(nd, "Issuer"),
            vals |-> [i \in DOMAIN vs |-> vs[i].text]])

\* the attributes of a subject, resource, action or environment
ParseAttrs(nd, also) ==
  LET as == Kids(nd, "Attribute")
      sub == [i \in DOMAIN as |-> ParseAttr(as[i])]
  IN Res(Both(<<Frame(nd), All(sub), IF Tags(nd) \subseteq {"Attribute"} \cup also THEN 3 ELSE 2>>), Cs(sub))

ParseSubject(nd) ==
  LET r == ParseAttrs(nd, {}) IN
  IF nd.ns # "" THEN Res(1, <<>>)
  ELSE Res(Both(<<r.s, Known(nd, {"SubjectCategory"})>>), [cat |-> OptAtt(nd, "SubjectCategory"), at |-> r.c])

\* resource content is kept as it is; character data between elements up to white space
RECURSIVE Norm(_)
Norm(nd) == [nd EXCEPT !.text = IF nd.kids = <<>> THEN @ ELSE Strip(@), !.kids = [i \in DOMAIN @ |-> Norm(@[i])]]
ParseResource(nd) ==
  LET r == ParseAttrs(nd, {"ResourceContent"})
      q == Kids(nd, "ResourceContent")
  IN IF nd.ns # "" THEN Res(1, <<>>)
     ELSE Res(Both(<<r.s, Known(nd, {}), IF Len(q) > 1 \/ (q # <<>> /\ q[1].ns # "") THEN 1 ELSE 3,
                     IF q = <<>> \/ nd.kids[1].tag = "ResourceContent" THEN 3 ELSE 2>>), [content |-> [i \in DOMAIN q |-> Norm(q[i])], at |-> r.c])

ParseHolder(nd) == LET r == ParseAttrs(nd, {}) IN IF nd.ns # "" THEN Res(1, <<>>) ELSE Res(Both(<<r.s, Known(nd, {})>>), r.c)

Parts == <<"Subject", "Resource", "Action", "Environment">>
ParseRequest(nd) ==
  LET of(t, P(_)) == LET q == Kids(nd, t) IN [i \in DOMAIN q |-> P(q[i])]
      S == of("Subject", ParseSubject)
      R == of("Resource", ParseResource)
      A1 == of("Action", ParseHolder)
      E1 == of("Environment", ParseHolder)
  IN Res(Both(<<Frame(nd), Known(nd, {}), All(S), All(R), All(A1), All(E1),
                IF Len(A1) > 1 \/ Len(E1) > 1 THEN 1 ELSE 3,
                IF Tags(nd) \subseteq RangeOf(Parts) THEN InOrder(nd, [i \in 1..4 |-> {Parts[i]}]) ELSE 2,
                IF S = <<>> \/ R = <<>> \/ A1 = <<>> \/ E1 = <<>> THEN 2 ELSE 3>>),
         [k |-> "RQ", S |-> Cs(S), R |-> Cs(R), A |-> Cs(A1), E |-> Cs(E1)])

(***************************************************************************)
(* Responses                                                               *)
(***************************************************************************)
ParseStatus(nd) ==
  LET c == Kids(nd, "StatusCode")  m == Kids(nd, "StatusMessage") IN
  IF nd.ns # "" \/ Len(c) # 1 \/ Len(m) > 1 THEN Res(1, <<>>)
  ELSE IF Missing(c[1], {"Value"}) \/ Att(c[1], "Value") \notin Codes THEN Res(1, <<>>)
  ELSE Res(Both(<<Frame(nd), Known(nd, {}), Leaf(c[1]), Known(c[1], {"Value"}),
                  IF m = <<>> THEN 3 ELSE Both(<<Leaf(m[1]), Known(m[1], {})>>),
                  IF Tags(nd) \ {"StatusCode", "StatusMessage"} # {} THEN 1 ELSE InOrder(nd, <<{"StatusCode"}, {"StatusMessage"}>>)>>),
           [code |-> Att(c[1], "Value"), msg |-> IF m = <<>> THEN "" ELSE m[1].text])
ParseObligation(nd) ==
  IF nd.ns # "" \/ nd.tag # "Obligation" \/ Missing(nd, {"ObligationId", "FulfillOn"}) \/ Att(nd, "FulfillOn") \notin {"Permit", "Deny"}
  THEN Res(1, <<>>)
  ELSE Res(Both(<<Leaf(nd), Known(nd, {"ObligationId", "FulfillOn"})>>), [id |-> Att(nd, "ObligationId"), on |-> Att(nd, "FulfillOn")])

ParseDecision(nd) ==
  IF Strip(nd.text) \notin Decisions /\ nd.kids = <<>> THEN Res(0, <<>>)
  ELSE Res(Both(<<Leaf(nd), Known(nd, {}), IF nd.text \in Decisions THEN 3 ELSE 2>>), Strip(nd.text))

ParseResult(nd) ==
  LET ds == Kids(nd, "Decision")  ss == Kids(nd, "Status")  os == Kids(nd, "Obligations")
      D == [i \in DOMAIN ds |-> ParseDecision(ds[i])]
      S == [i \in DOMAIN ss |-> ParseStatus(ss[i])]
      O == Concat([i \in DOMAIN os |-> [j \in DOMAIN os[i].kids |-> ParseObligation(os[i].kids[j])]])
  IN IF nd.ns # "" THEN Res(1, <<>>)
     ELSE IF ds = <<>> THEN Res(0, <<>>)
     ELSE Res(Both(<<Frame(nd), Known(nd, {"ResourceId"}), All(D), All(S), All(O),
                     IF Len(ds) > 1 \/ Len(ss) > 1 \/ Len(os) > 1 \/ Len(O) > 1 THEN 1 ELSE 3,
                     IF \E i \in DOMAIN os : os[i].kids = <<>> \/ Leaf([os[i] EXCEPT !.kids = <<>>]) # 3 THEN 1 ELSE 3,
                     IF Tags(nd) \subseteq {"Decision", "Status", "Obligations"}
                     THEN InOrder(nd, <<{"Decision"}, {"Status"}, {"Obligations"}>>) ELSE 2>>),
              [rid |-> OptAtt(nd, "ResourceId"), dec |-> D[1].c, st |-> Cs(S), ob |-> Cs(O)])

ParseResponse(nd) ==
  LET rs == Kids(nd, "Result")
      sub == [i \in DOMAIN rs |-> ParseResult(rs[i])]
  IN Res(Both(<<Frame(nd), Known(nd, {}), All(sub), IF Tags(nd) \subseteq {"Result"} THEN 3 ELSE 2,
                IF rs = <<>> THEN 2 ELSE 3>>),
         [k |-> "RS", rs |-> Cs(sub)])

Parse(nd) == IF nd.ns # "" THEN Res(1, <<>>)
             ELSE CASE nd.tag = "Request" -> ParseRequest(nd) [] nd.tag = "Response" -> ParseResponse(nd) [] OTHER -> Res(0, <<>>)
\* a document given to the reader of requests or of responses
ParseAs(k, nd) == IF nd.tag # (IF k = "RQ" THEN "Request" ELSE "Response") THEN Res(IF nd.ns = "" THEN 0 ELSE 1, <<>>) ELSE Parse(nd)

(***************************************************************************)
(* The document a content is written as                                    *)
(***************************************************************************)
ElX(tag, at, text, kids) == [tag |-> tag, ns |-> "", at |-> at, text |-> text, kids |-> kids]
At1(n, q) == [i \in DOMAIN q |-> A(n, q[i])]
UnAttr(a) == ElX("Attribute", <<A("AttributeId", a.id), A("DataType", a.dt)>> \o At1("Issuer", a.iss), "",
                 [i \in DOMAIN a.vals |-> ElX("AttributeValue", <<>>, a.vals[i], <<>>)])
UnAttrs(q) == [i \in DOMAIN q |-> UnAttr(q[i])]
UnResult(r) ==
  ElX("Result", At1("ResourceId", r.rid), "",
      <<ElX("Decision", <<>>, r.dec, <<>>)>>
      \o [i \in DOMAIN r.st |-> ElX("Status", <<>>, "", <<ElX("StatusCode", <<A("Value", r.st[i].code)>>, "", <<>>)>>
                                     \o Maybe(r.st[i].msg, ElX("StatusMessage", <<>>, r.st[i].msg, <<>>)))]
      \o IF r.ob = <<>> THEN <<>>
         ELSE <<ElX("Obligations", <<>>, "", [i \in DOMAIN r.ob |->
                   ElX("Obligation", <<A("ObligationId", r.ob[i].id), A("FulfillOn", r.ob[i].on)>>, "", <<>>)])>>)
Unparse(c) ==
  IF c.k = "RQ"
  THEN ElX("Request", <<>>, "",
           [i \in DOMAIN c.S |-> ElX("Subject", At1("SubjectCategory", c.S[i].cat), "", UnAttrs(c.S[i].at))]
           \o [i \in DOMAIN c.R |-> ElX("Resource", <<>>, "", c.R[i].content \o UnAttrs(c.R[i].at))]
           \o [i \in DOMAIN c.A |-> ElX("Action", <<>>, "", UnAttrs(c.A[i]))]
           \o [i \in DOMAIN c.E |-> ElX("Environment", <<>>, "", UnAttrs(c.E[i]))])
  ELSE ElX("Response", <<>>, "", [i \in DOMAIN c.rs |-> UnResult(c.rs[i])])

\* the order of XML attributes means nothing
\* and the category a subject has by default need not be stated
AccessSubject == "urn:oasis:names:tc:xacml:1.0:subject-category:access-subject"
Stated(nd) == IF nd.tag = "Subject" THEN SelectSeq(nd.at, LAMBDA a : a # A("SubjectCategory", AccessSubject)) ELSE nd.at
RECURSIVE Same(_,_)
Same(a, b) == /\ a.tag = b.tag /\ a.ns = b.ns /\ a.text = b.text
              /\ Len(Stated(a)) = Len(Stated(b)) /\ RangeOf(Stated(a)) = RangeOf(Stated(b))
              /\ Len(a.kids) = Len(b.kids) /\ \A i \in DOMAIN a.kids : Same(a.kids[i], b.kids[i])

RECURSIVE SetAt(_)
SetAt(nd) == [nd EXCEPT !.at = RangeOf(@), !.kids = [i \in DOMAIN @ |-> SetAt(@[i])]]
Canon(c) == IF c.k # "RQ" THEN c
            ELSE [c EXCEPT !.S = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cat = IF @ = <<>> THEN <<AccessSubject>> ELSE @]],
                           !.R = [i \in DOMAIN @ |-> [@[i] EXCEPT !.content = [j \in DOMAIN @ |-> SetAt(@[j])]]]]

\* a part of a document on its own: its content is that of the least document around it
PartTags == <<"Subject", "Resource", "Action", "Environment", "Attribute", "Result", "Decision">>
NoParts == [k |-> "RQ", S |-> <<>>, R |-> <<>>, A |-> <<>>, E |-> <<>>]
Around(k, p) == CASE k = "Subject" -> [NoParts EXCEPT !.S = <<p>>]
                  [] k = "Resource" -> [NoParts EXCEPT !.R = <<p>>]
                  [] k = "Action" -> [NoParts EXCEPT !.A = <<p>>]
                  [] k = "Environment" -> [NoParts EXCEPT !.E = <<p>>]
                  [] k = "Attribute" -> [NoParts EXCEPT !.S = <<[cat |-> <<>>, at |-> <<p>>]>>]
                  [] k = "Result" -> [k |-> "RS", rs |-> <<p>>]
                  [] OTHER -> [k |-> "RS", rs |-> <<[rid |-> <<>>, dec |-> p, st |-> <<>>, ob |-> <<>>]>>]
ParsePart(k, nd) ==
  IF nd.tag # k THEN Res(IF nd.ns = "" THEN 0 ELSE 1, <<>>)
  ELSE LET r == CASE k = "Subject" -> ParseSubject(nd) [] k = "Resource" -> ParseResource(nd) [] k \in {"Action", "Environment"} -> ParseHolder(nd)
                  [] k = "Attribute" -> ParseAttr(nd) [] k = "Result" -> ParseResult(nd) [] OTHER -> IF nd.ns = "" THEN ParseDecision(nd) ELSE Res(1, <<>>)
       IN Res(r.s, IF r.s >= 2 THEN Around(k, r.c) ELSE <<>>)
UnPart(k, c) == LET d == Unparse(c).kids[1] IN IF k \in {"Attribute", "Decision"} THEN d.kids[1] ELSE d

\* a content without what the library is known to leave out
Bare1(r) == [r EXCEPT !.st = <<>>, !.ob = <<>>]
Reduced(c) == IF c.k = "RQ" THEN c ELSE [c EXCEPT !.rs = [i \in DOMAIN c.rs |-> Bare1(c.rs[i])]]
HasStatus(c) == c.k = "RS" /\ \E i \in DOMAIN c.rs : c.rs[i].st # <<>>
HasOblig(c)  == c.k = "RS" /\ \E i \in DOMAIN c.rs : c.rs[i].ob # <<>>

(***************************************************************************)
(* Edits of the objects: every one changes exactly what it names           *)
(***************************************************************************)
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
HolderSet(c, h, q) == CASE h.c = "S" -> [c EXCEPT !.S[h.i].at = q] [] h.c = "R" -> [c EXCEPT !.R[h.i].at = q]
                        [] h.c = "A" -> [c EXCEPT !.A[h.i] = q] [] OTHER -> [c EXCEPT !.E[h.i] = q]
HolderGet(c, h) == CASE h.c = "S" -> c.S[h.i].at [] h.c = "R" -> c.R[h.i].at [] h.c = "A" -> c.A[h.i] [] OTHER -> c.E[h.i]

Effect(c, o) ==
  CASE o.o = "addattr" -> HolderSet(c, o.h, Append(HolderGet(c, o.h), o.a))
    [] o.o = "delattr" -> HolderSet(c, o.h, Drop(HolderGet(c, o.h), o.i))
    [] o.o = "setid"   -> HolderSet(c, o.h, [HolderGet(c, o.h) EXCEPT ![o.i].id = o.v])
    [] o.o = "setiss"  -> HolderSet(c, o.h, [HolderGet(c, o.h) EXCEPT ![o.i].iss = <<o.v>>])
    [] o.o = "addval"  -> HolderSet(c, o.h, [HolderGet(c, o.h) EXCEPT ![o.i].vals = Append(@, o.v)])
    [] o.o = "delval"  -> HolderSet(c, o.h, [HolderGet(c, o.h) EXCEPT ![o.i].vals = Drop(@, o.j)])
    [] o.o = "setval"  -> HolderSet(c, o.h, [HolderGet(c, o.h) EXCEPT ![o.i].vals[o.j] = o.v])
    [] o.o = "addsub"  -> [c EXCEPT !.S = Append(@, [cat |-> o.v, at |-> <<>>])]
    [] o.o = "delsub"  -> [c EXCEPT !.S = Drop(@, o.i)]
    [] o.o = "setcat"  -> [c EXCEPT !.S[o.i].cat = <<o.v>>]
    [] o.o = "addres"  -> [c EXCEPT !.R = Append(@, [content |-> o.n, at |-> <<>>])]
    [] o.o = "delres"  -> [c EXCEPT !.R = Drop(@, o.i)]
    [] o.o = "setcont" -> [c EXCEPT !.R[o.i].content = o.n]
    [] o.o = "setact"  -> [c EXCEPT !.A = <<o.q>>]
    [] o.o = "setenv"  -> [c EXCEPT !.E = <<o.q>>]
    [] o.o = "addresult" -> [c EXCEPT !.rs = Append(@, [rid |-> o.v, dec |-> o.d, st |-> <<>>, ob |-> <<>>])]
    [] o.o = "delresult" -> [c EXCEPT !.rs = Drop(@, o.i)]
    [] o.o = "setdec"    -> [c EXCEPT !.rs[o.i].dec = o.d]
    [] o.o = "setrid"    -> [c EXCEPT !.rs[o.i].rid = <<o.v>>]
    [] OTHER -> c                                              \* reload: what was written is read back
=============================================================================
