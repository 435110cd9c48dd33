------------------------------ MODULE DataTypes ------------------------------
(***************************************************************************)
(* Attribute values, the registry of value classes and that of document    *)
(* readers: what each operation on them does.                              *)
(*                                                                         *)
(* state [m, r, h]  m: data type identifier -> value class                 *)
(*                  r: data type identifier -> document reader             *)
(*                  h: the values made so far, each [c, dt, v]: its class, *)
(*                     its data type, what it holds ("" nothing yet)       *)
(* a native value is [ty, s], written ty ":" s                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

XS == "http://www.w3.org/2001/XMLSchema#"
XQ == "http://www.w3.org/TR/2002/WD-xquery-operators-20020816#"
X1 == "urn:oasis:names:tc:xacml:1.0:data-type:"
X2 == "urn:oasis:names:tc:xacml:2.0:data-type:"
Std == (XS \o "string" :> "String") @@ (XS \o "anyURI" :> "AnyURI") @@ (XS \o "integer" :> "Integer") @@ (XS \o "boolean" :> "Boolean")
       @@ (XS \o "double" :> "Double") @@ (XS \o "date" :> "Date") @@ (XS \o "dateTime" :> "DateTime") @@ (XS \o "time" :> "Time")
       @@ (XQ \o "dayTimeDuration" :> "DayTimeDuration") @@ (XQ \o "yearMonthDuration" :> "YearMonthDuration")
       @@ (X1 \o "x500Name" :> "X500Name") @@ (X1 \o "rfc822Name" :> "Rfc822Name") @@ (XS \o "hexBinary" :> "HexBinary")
       @@ (XS \o "base64Binary" :> "Base64Binary") @@ (X2 \o "ipAddress" :> "IpAddress") @@ (X2 \o "dnsName" :> "DnsName")
StdIds == DOMAIN Std
Custom == ("K1" :> "urn:k1") @@ ("K2" :> "urn:k2") @@ ("K3" :> "urn:k3") @@ ("K4" :> XS \o "anyURI") @@ ("K5" :> "urn:k1") @@ ("KS" :> "urn:ks")
FreeIds == {"urn:k1", "urn:k2", "urn:k3", "urn:ks", "urn:free", "urn:K1", "urn:k", XS \o "String", "string"}
Ids == StdIds \cup FreeIds
Start == [m |-> Std, r |-> [i \in StdIds |-> "base"], h |-> <<>>]

Classes == {Std[i] : i \in StdIds} \cup DOMAIN Custom
Abstract == {"Kx"}                        \* a value class without a native type: cannot be instantiated
Native(c) == CASE c \in {"String", "AnyURI", "X500Name", "Rfc822Name", "IpAddress", "DnsName", "K1", "K4", "K5", "KS"} -> "str"
               [] c \in {"Integer", "HexBinary", "K2"} -> "int"
               [] c = "Boolean" -> "bool"
               [] c = "Double" -> "float"
               [] c \in {"Date", "DateTime", "Time"} -> "datetime"
               [] c \in {"DayTimeDuration", "YearMonthDuration"} -> "timedelta"
               [] c = "K3" -> "tuple"
               [] c = "Base64Binary" -> "-"         \* no native type: holds nothing
Identifier(c) == IF c \in DOMAIN Custom THEN Custom[c] ELSE CHOOSE i \in StdIds : Std[i] = c
Accepts(c, a) == a.ty = Native(c)
Written(a) == a.ty \o ":" \o a.s
Readers == {"base", "upper", "int", "pair", "skip"}
\* what the reader makes of the text, given a value of class c: [ok, v]
Read(rd, c, x) ==
  LET a == CASE rd = "base" -> [ty |-> "str", s |-> x.s] [] rd = "upper" -> [ty |-> "str", s |-> x.up]
             [] rd = "int" -> IF x.int = "" THEN [ty |-> "!", s |-> ""] ELSE [ty |-> "int", s |-> x.int]
             [] rd = "pair" -> [ty |-> "tuple", s |-> x.s]
             [] OTHER -> [ty |-> "skip", s |-> ""]
  IN IF a.ty = "skip" THEN [ok |-> TRUE, v |-> ""]
     ELSE IF Accepts(c, a) THEN [ok |-> TRUE, v |-> Written(a)] ELSE [ok |-> FALSE, v |-> ""]

(***************************************************************************)
(* Do(s, o): the set of outcomes [ok, s, ret] that are right               *)
(***************************************************************************)
Res(ok, s, ret) == [ok |-> ok, s |-> s, ret |-> ret]
Refuse(s) == {Res(FALSE, s, "")}
Fine(s) == {Res(TRUE, s, "")}
Grow(s, c, dt, v) == {Res(TRUE, [s EXCEPT !.h = Append(s.h, [c |-> c, dt |-> dt, v |-> v])], "")}
Neg(b) == IF b THEN "false" ELSE "true"

AddClass(s, o) ==
  IF o.id \notin Ids \/ o.c \notin Classes \cup Abstract THEN Refuse(s)
  ELSE IF o.id \in DOMAIN s.m /\ ~o.ow THEN Fine(s) \cup Refuse(s)
  ELSE Fine([s EXCEPT !.m = (o.id :> o.c) @@ s.m])
AddReader(s, o) ==
  IF o.id \notin Ids \/ o.r \notin Readers THEN Refuse(s)
  ELSE Fine([s EXCEPT !.r = (o.id :> o.r) @@ s.r])
Make(s, o) ==
  IF o.id \notin DOMAIN s.m THEN Fine(s) \cup Refuse(s)                   \* there is no such class
  ELSE IF s.m[o.id] \in Abstract THEN Refuse(s)
  ELSE Grow(s, s.m[o.id], Identifier(s.m[o.id]), "")
Compare(s, o) ==
  LET x == s.h[o.i]
      y == s.h[o.j]
      related == {x.c, y.c} = {"KS", "String"}        \* a subclass and its base: may raise
      eq == x.v = y.v
  IN IF x.c # y.c /\ ~related THEN Refuse(s)
     ELSE {Res(TRUE, s, IF o.how = "ne" THEN Neg(eq) ELSE Neg(~eq))} \cup (IF related THEN Refuse(s) ELSE {})
\* a literal of that data type in a policy document
Literal(s, id, x) == IF id \notin DOMAIN s.m \/ id \notin DOMAIN s.r THEN [ok |-> FALSE, v |-> ""]
                     ELSE IF s.m[id] \in Abstract THEN [ok |-> FALSE, v |-> ""]
                     ELSE Read(s.r[id], s.m[id], x)
\* a policy that permits if the literal is among the values of the request's attribute of that data type
Decide(s, o) ==
  LET lit == Literal(s, o.id, o.x)
      right == IF \E k \in DOMAIN o.vs : Written(o.vs[k]) = lit.v THEN "Permit" ELSE "NotApplicable"
      fits == \A k \in DOMAIN o.vs : Accepts(s.m[o.id], o.vs[k])
  IN {Res(TRUE, s, r) : r \in IF ~lit.ok THEN {"rejected"}
                              ELSE IF ~fits THEN {"norequest"}
                              ELSE IF o.how = "document" /\ Native(s.m[o.id]) # "str" THEN {right, "norequest"}
                              ELSE {right}}

Do(s, o) ==
  CASE o.o = "add"    -> AddClass(s, o)
    [] o.o = "reader" -> AddReader(s, o)
    [] o.o = "make"   -> Make(s, o)
    [] o.o = "new"    -> IF o.c \in Abstract \/ ~Accepts(o.c, o.a) THEN Refuse(s) ELSE Grow(s, o.c, Identifier(o.c), Written(o.a))
    [] o.o = "set"    -> IF Accepts(s.h[o.i].c, o.a) THEN Fine([s EXCEPT !.h[o.i].v = Written(o.a)]) ELSE Refuse(s)
    [] o.o = "type"   -> IF o.s = "!" THEN Refuse(s) ELSE Fine([s EXCEPT !.h[o.i].dt = o.s])
    [] o.o = "cmp"    -> Compare(s, o)
    [] o.o = "cmpx"   -> Refuse(s)                       \* with something that is no attribute value
    [] o.o = "lit"    -> LET l == Literal(s, o.id, o.x) IN IF l.ok THEN Grow(s, s.m[o.id], o.id, l.v) ELSE Refuse(s)
    [] o.o = "decide" -> Decide(s, o)
=============================================================================
