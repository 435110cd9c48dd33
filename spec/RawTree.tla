------------------------------- MODULE RawTree -------------------------------
(***************************************************************************)
(* Raw XML element trees, as PolicyDoc and ContextDoc read them.           *)
(*                                                                         *)
(* raw element  [tag, ns, at, text, kids]  tag: local name; ns "" for the  *)
(*    namespace of the document; at: sequence of [n, v]; text: the         *)
(*    character data before the first child; kids: child elements in order *)
(* Parsing gives [s, c]: c the content, s how firm that is:                *)
(*    0 the document must be refused                                       *)
(*    1 nothing is claimed (parts of XACML the library gives no promise on)*)
(*    2 it may be refused; if it loads it has content c                    *)
(*    3 it must load with content c                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

X  == "http://www.w3.org/2001/XMLSchema#"
TextTypes == {X \o "string", X \o "anyURI", "urn:oasis:names:tc:xacml:1.0:data-type:x500Name",
              "urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name", "urn:oasis:names:tc:xacml:2.0:data-type:ipAddress",
              "urn:oasis:names:tc:xacml:2.0:data-type:dnsName"}
OtherTypes == {X \o t : t \in {"integer", "boolean", "double", "date", "dateTime", "time", "hexBinary", "base64Binary"}}
              \cup {"http://www.w3.org/TR/2002/WD-xquery-operators-20020816#dayTimeDuration",
                    "http://www.w3.org/TR/2002/WD-xquery-operators-20020816#yearMonthDuration"}
NoTypes == {"", "urn:none", X \o "strin", X \o "String", "string", X, X \o "string "}

(***************************************************************************)
(* Access to raw elements                                                  *)
(***************************************************************************)
RangeOf(q) == {q[i] : i \in DOMAIN q}
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
\* refused if any part must be; nothing claimed if nothing is claimed of a part; else the weaker
Both(q) == LET s == RangeOf(q) IN IF s = {} THEN 3 ELSE MinOf(s)

Has(nd, n) == \E i \in DOMAIN nd.at : nd.at[i].n = n
Att(nd, n) == IF Has(nd, n) THEN nd.at[CHOOSE i \in DOMAIN nd.at : nd.at[i].n = n].v ELSE ""
Kids(nd, t) == SelectSeq(nd.kids, LAMBDA k : k.tag = t)
Count(nd, t) == Len(Kids(nd, t))
Tags(nd) == {nd.kids[i].tag : i \in DOMAIN nd.kids}
Missing(nd, names) == \E n \in names : ~Has(nd, n)
\* further XML attributes than the ones the schema gives the element do no harm
Known(nd, names) == IF \A i \in DOMAIN nd.at : nd.at[i].n \in names THEN 3 ELSE 2

WS == {" ", "\n", "\t", "\r"}
RECURSIVE LStrip(_)
LStrip(x) == IF x # "" /\ SubSeq(x, 1, 1) \in WS THEN LStrip(SubSeq(x, 2, Len(x))) ELSE x
RECURSIVE RStrip(_)
RStrip(x) == IF x # "" /\ SubSeq(x, Len(x), Len(x)) \in WS THEN RStrip(SubSeq(x, 1, Len(x) - 1)) ELSE x
Strip(x) == LStrip(RStrip(x))

\* elements in other namespaces, and text where the schema has none
Frame(nd) == Both(<<IF nd.ns = "" THEN 3 ELSE 1, IF Strip(nd.text) = "" THEN 3 ELSE 2>>)
Leaf(nd)  == IF nd.ns # "" THEN 1 ELSE IF nd.kids = <<>> THEN 3 ELSE 1

\* position of a child tag in the order the schema gives
InOrder(nd, order) ==
  LET pos(t) == CHOOSE i \in DOMAIN order : t \in order[i] IN
  IF \A i \in 1..(Len(nd.kids) - 1) : pos(nd.kids[i].tag) <= pos(nd.kids[i + 1].tag) THEN 3 ELSE 2

Res(s, c) == [s |-> s, c |-> IF s < 2 THEN <<>> ELSE c]
All(rs) == Both([i \in DOMAIN rs |-> rs[i].s])
Cs(rs)  == [i \in DOMAIN rs |-> rs[i].c]

Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]

El(tag, at, text, kids) == [tag |-> tag, ns |-> "", at |-> at, text |-> text, kids |-> kids]
A(n, v) == [n |-> n, v |-> v]
Maybe(x, el) == IF x = "" THEN <<>> ELSE <<el>>
=============================================================================
