--------------------------- MODULE ContextObjects ---------------------------
(***************************************************************************)
(* Request and response objects and their parts, put together through      *)
(* their properties and lists: a heap of objects that refer to each other. *)
(*   object [c, fix, s]  class, whether it is a constant, its slots        *)
(*   slots  L: list of objects (indices), O: one object (0 none),          *)
(*          T: text ("-" none), A: anything, V: a word of a vocabulary,    *)
(*          F: fixed when made (the data type of a value)                  *)
(*   arg    [t |-> "str", s], [t |-> "obj", i], [t |-> "odd", s],          *)
(*          [t |-> "def"] left to its default                              *)
(*   op     new c, val ty (a value of a data type), dec v (a constant),    *)
(*          made d rid ob code msg (a result created initialised),         *)
(*          set i f a, setl i f et xs                                      *)
(*          (a typed list of et put in place of another), app ins put del  *)
(*          ext clear i f ..., copy i how                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

L(f, c) == [f |-> f, k |-> "L", of |-> c]
O(f, c) == [f |-> f, k |-> "O", of |-> c]
T(f)    == [f |-> f, k |-> "T", of |-> ""]
A(f)    == [f |-> f, k |-> "A", of |-> ""]
V(f)    == [f |-> f, k |-> "V", of |-> ""]
F(f)    == [f |-> f, k |-> "F", of |-> ""]
Table ==
  [Request     |-> << L("subjects", "Subject"), L("resources", "Resource"), O("action", "Action"), O("environment", "Environment"),
                      O("ctxHandler", "Handler"), O("attributeSelector", "Selector") >>,
   Subject     |-> << L("attributes", "Attribute"), T("subjectCategory") >>,
   Resource    |-> << L("attributes", "Attribute"), A("resourceContent") >>,
   Action      |-> << L("attributes", "Attribute") >>,
   Environment |-> << L("attributes", "Attribute") >>,
   Attribute   |-> << L("attributeValues", "Value"), T("attributeId"), T("dataType"), T("issuer") >>,
   Value       |-> << T("value"), F("type") >>,
   Response    |-> << L("results", "Result") >>,
   Result      |-> << O("decision", "Decision"), O("status", "Status"), T("resourceId"), O("obligations", "Obligation") >>,
   Status      |-> << O("statusCode", "StatusCode"), T("statusMessage"), A("statusDetail") >>,
   StatusCode  |-> << V("value") >>,
   Decision    |-> << V("value") >>,
   Obligation  |-> << T("obligationId"), T("fulfillOn") >>,
   Handler     |-> << O("pip", "Pip"), O("pdp", "Pdp") >>,
   Pdp         |-> << O("policy", "Policy") >>,
   Selector    |-> <<>>, Pip |-> <<>>, Policy |-> <<>>]
Classes == DOMAIN Table
Slot(c, f) == LET q == Table[c] IN q[CHOOSE i \in DOMAIN q : q[i].f = f]
Fields(c) == {Table[c][i].f : i \in DOMAIN Table[c]}

Decisions == {"Permit", "Deny", "Indeterminate", "NotApplicable"}
ST == "urn:oasis:names:tc:xacml:1.0:status:"
Codes == {ST \o x : x \in {"ok", "missing-attribute", "processing-error", "syntax-error"}}
Words(c) == IF c = "Decision" THEN Decisions ELSE Codes

Empty(c) == LET Of(k) == IF k = "L" THEN <<>> ELSE IF k = "O" THEN 0 ELSE "-" IN
            IF c = "Decision" THEN [value |-> "Indeterminate"]
            ELSE IF c = "Value" THEN [value |-> "x", type |-> "string"]
            ELSE [f \in Fields(c) |-> Of(Slot(c, f).k)]
Obj(c, fix, s) == [c |-> c, fix |-> fix, s |-> s]

\* values of what Python type an attribute value of a data type takes
Native(ty) == CASE ty \in {"integer", "hexBinary"} -> {"int", "true"}
                [] ty = "boolean" -> {"true"}
                [] ty = "double" -> {"float"}
                [] ty \in {"date", "dateTime", "time"} -> {"datetime"}
                [] ty \in {"dayTimeDuration", "yearMonthDuration"} -> {"timedelta"}
                [] OTHER -> {}
Texts == {"string", "anyURI", "x500Name", "rfc822Name", "ipAddress", "dnsName"}
First(ty) == IF ty \in Texts THEN "x" ELSE IF ty \in {"integer", "hexBinary"} THEN "#int" ELSE "#" \o CHOOSE w \in Native(ty) : TRUE
IsObj(h, a, c) == a.t = "obj" /\ h[a.i].c = c
\* does the argument fit the slot, and what the slot then holds
Fits(h, o, sl, a) ==
  CASE sl.k = "O" -> IsObj(h, a, sl.of)
    [] sl.k = "T" /\ h[o].c = "Value" -> IF h[o].s.type \in Texts THEN a.t = "str" ELSE a.t = "odd" /\ a.s \in Native(h[o].s.type)
    [] sl.k = "T" -> a.t = "str"
    [] sl.k = "A" -> a.t \in {"str", "odd"}
    [] sl.k = "V" -> IF a.t = "obj" THEN h[o].c = "Decision" /\ IsObj(h, a, "Decision") ELSE a.t = "str" /\ a.s \in Words(h[o].c)
    [] OTHER -> FALSE
Held(h, sl, a) ==
  CASE sl.k = "O" -> a.i
    [] sl.k = "V" /\ a.t = "obj" -> h[a.i].s.value
    [] a.t = "odd" -> IF a.s = "none" THEN "-" ELSE "#" \o a.s
    [] OTHER -> a.s

InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
RemoveAt(q, i)    == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* ------------------------------------------------------------------- copies
\* everything an object leads to, itself first, in order, each once
RECURSIVE Reach(_,_,_), ReachQ(_,_,_)
Leads(h, i) == LET q == Table[h[i].c]
                   Part(j) == LET v == h[i].s[q[j].f] IN IF q[j].k = "L" THEN v ELSE IF q[j].k = "O" /\ v # 0 THEN <<v>> ELSE <<>>
                   Cat[j \in 0..Len(q)] == IF j = 0 THEN <<>> ELSE Cat[j - 1] \o Part(j)
               IN Cat[Len(q)]
Has(q, i) == \E j \in DOMAIN q : q[j] = i
Reach(h, i, seen) == IF Has(seen, i) THEN seen ELSE ReachQ(h, Leads(h, i), Append(seen, i))
ReachQ(h, q, seen) == IF q = <<>> THEN seen ELSE ReachQ(h, Tail(q), Reach(h, Head(q), seen))

Copied(h, i) ==
  LET r == Reach(h, i, <<>>)
      At(x) == Len(h) + (CHOOSE j \in DOMAIN r : r[j] = x)
      Moved(sl, v) == IF sl.k = "L" THEN [n \in DOMAIN v |-> At(v[n])] ELSE IF sl.k = "O" /\ v # 0 THEN At(v) ELSE v
      One(x) == [h[x] EXCEPT !.s = [f \in DOMAIN h[x].s |-> Moved(Slot(h[x].c, f), h[x].s[f])]]
  IN h \o [j \in DOMAIN r |-> One(r[j])]

\* --------------------------------------------------------------- operations
\* a result created initialised, with a decision and a status of its own
Made(h, op0) ==
  LET Or(a, s) == IF a.t = "def" THEN [t |-> "str", s |-> s] ELSE a
      op == [op0 EXCEPT !.d = Or(@, "NotApplicable"), !.rid = Or(@, ""), !.code = Or(@, ST \o "ok"), !.msg = Or(@, ""),
                        !.ob = IF @.t = "def" THEN [t |-> "odd", s |-> "none"] ELSE @]
      n == Len(h)  d == Obj("Decision", FALSE, Empty("Decision"))
      Ok == /\ Fits(Append(h, d), n + 1, V("value"), op.d)
            /\ op.code.t = "str" /\ op.code.s \in Codes /\ op.msg.t = "str"
            /\ (op.ob = [t |-> "odd", s |-> "none"] \/ IsObj(h, op.ob, "Obligation"))
            /\ op.rid.t = "str"
      Word == Held(h, V("value"), op.d)
  IN IF ~Ok THEN [ok |-> FALSE, h |-> h]
     ELSE [ok |-> TRUE, h |-> h \o
            << Obj("Result", FALSE, [decision |-> n + 2, status |-> n + 3, resourceId |-> IF op.rid.s = "" THEN "-" ELSE op.rid.s,
                                     obligations |-> IF op.ob.t = "obj" THEN op.ob.i ELSE 0]),
               Obj("Decision", FALSE, [value |-> Word]),
               Obj("Status", FALSE, [statusCode |-> n + 4, statusMessage |-> op.msg.s, statusDetail |-> ""]),
               Obj("StatusCode", FALSE, [value |-> op.code.s]) >>]
Res(ok, h) == [ok |-> ok, h |-> h]
Store(h, i, f, v) == Res(TRUE, [h EXCEPT ![i].s[f] = v])
Do(h, op) ==
  CASE op.o = "new"  -> Res(TRUE, Append(h, Obj(op.c, FALSE, Empty(op.c))))
    [] op.o = "val"  -> Res(TRUE, Append(h, Obj("Value", FALSE, [value |-> First(op.ty), type |-> op.ty])))
    [] op.o = "dec"  -> Res(TRUE, Append(h, Obj("Decision", TRUE, [value |-> op.v])))
    [] op.o = "made" -> Made(h, op)
    [] op.o = "copy" -> Res(TRUE, Copied(h, op.i))
    [] op.o = "set"  -> LET sl == Slot(h[op.i].c, op.f) IN
                        IF h[op.i].fix \/ ~Fits(h, op.i, sl, op.a) THEN Res(FALSE, h) ELSE Store(h, op.i, op.f, Held(h, sl, op.a))
    [] op.o = "setl" -> IF op.f = "attributeValues" /\ op.et = "Value" THEN Store(h, op.i, op.f, op.xs) ELSE Res(FALSE, h)
    [] OTHER ->
       LET q == h[op.i].s[op.f]
           Ok(a) == IsObj(h, a, Slot(h[op.i].c, op.f).of)
       IN CASE op.o = "del"   -> Store(h, op.i, op.f, RemoveAt(q, op.n))
            [] op.o = "clear" -> Store(h, op.i, op.f, <<>>)
            [] op.o = "ext"   -> IF \A j \in DOMAIN op.as : Ok(op.as[j])
                                 THEN Store(h, op.i, op.f, q \o [j \in DOMAIN op.as |-> op.as[j].i]) ELSE Res(FALSE, h)
            [] ~Ok(op.a)      -> Res(FALSE, h)
            [] op.o = "app"   -> Store(h, op.i, op.f, Append(q, op.a.i))
            [] op.o = "ins"   -> Store(h, op.i, op.f, InsertAt(q, op.n, op.a.i))
            [] op.o = "put"   -> Store(h, op.i, op.f, [q EXCEPT ![op.n] = op.a.i])
=============================================================================
