------------------------ MODULE ContextObjectsMachine ------------------------
(* Every history of up to Depth operations, right and wrong, on a request    *)
(* and a response that share some of their parts.                            *)
EXTENDS ContextObjects, Json
CONSTANTS Depth, Emit
VARIABLES h, tr
vars == <<h, tr>>

Parts == << Obj("Request", FALSE, [Empty("Request") EXCEPT !.subjects = <<2, 3>>, !.resources = <<4>>, !.action = 5]),
            Obj("Subject", FALSE, [Empty("Subject") EXCEPT !.attributes = <<7>>]),
            Obj("Subject", FALSE, [Empty("Subject") EXCEPT !.attributes = <<7>>, !.subjectCategory = "c"]),
            Obj("Resource", FALSE, [Empty("Resource") EXCEPT !.attributes = <<7>>]),
            Obj("Action", FALSE, Empty("Action")), Obj("Environment", FALSE, Empty("Environment")),
            Obj("Attribute", FALSE, [Empty("Attribute") EXCEPT !.attributeValues = <<8>>, !.attributeId = "urn:a"]),
            Obj("Value", FALSE, Empty("Value")),
            Obj("Response", FALSE, [results |-> <<10>>]), Obj("Result", FALSE, [Empty("Result") EXCEPT !.decision = 13, !.status = 11]),
            Obj("Status", FALSE, [Empty("Status") EXCEPT !.statusCode = 12]), Obj("StatusCode", FALSE, Empty("StatusCode")),
            Obj("Decision", TRUE, [value |-> "Permit"]), Obj("Decision", FALSE, [value |-> "Deny"]),
            Obj("Obligation", FALSE, Empty("Obligation")), Obj("Handler", FALSE, Empty("Handler")), Obj("Pdp", FALSE, Empty("Pdp")),
            Obj("Selector", FALSE, Empty("Selector")), Obj("Pip", FALSE, Empty("Pip")), Obj("Policy", FALSE, Empty("Policy")),
            Obj("Value", FALSE, [value |-> "#int", type |-> "integer"]), Obj("Value", FALSE, [value |-> "#true", type |-> "boolean"]) >>

Str(s) == [t |-> "str", s |-> s]
Odd(s) == [t |-> "odd", s |-> s]
Ref(i) == [t |-> "obj", i |-> i]
Args == {Ref(i) : i \in DOMAIN h} \cup {Str(s) : s \in {"Permit", "deny", ST \o "ok"}} \cup {Odd(s) : s \in {"none", "int", "true", "list", "bytes"}}
Items(c) == {Ref(i) : i \in DOMAIN h} \cup {Str("x"), Odd("none"), Odd("int")}
OpsOf(i, f) ==
  LET sl == Slot(h[i].c, f)  q == h[i].s[f] IN
  IF sl.k = "F" THEN {} ELSE
  {[o |-> "set", i |-> i, f |-> f, a |-> a] : a \in IF sl.k = "A" THEN {a \in Args : a.t # "obj"} ELSE Args}
  \cup IF sl.k # "L" THEN {}
       ELSE {[o |-> "app", i |-> i, f |-> f, a |-> a] : a \in Items(sl.of)}
            \cup {[o |-> "ins", i |-> i, f |-> f, n |-> 1, a |-> a] : a \in Items(sl.of)}
            \cup {[o |-> "put", i |-> i, f |-> f, n |-> n, a |-> a] : n \in DOMAIN q, a \in Items(sl.of)}
            \cup {[o |-> "ext", i |-> i, f |-> f, as |-> <<a>>] : a \in Items(sl.of)}
            \cup {[o |-> "del", i |-> i, f |-> f, n |-> n] : n \in DOMAIN q}
            \cup {[o |-> "clear", i |-> i, f |-> f]}
            \cup {[o |-> "setl", i |-> i, f |-> f, et |-> et, xs |-> <<>>] : et \in {"Value", "Attribute"}}
            \cup (IF f = "attributeValues" THEN {[o |-> "setl", i |-> i, f |-> f, et |-> "Value", xs |-> <<8>>]} ELSE {})
Ops == (UNION {UNION {OpsOf(i, f) : f \in Fields(h[i].c)} : i \in DOMAIN h})
       \cup {[o |-> "made", d |-> d, rid |-> Str(r), ob |-> ob, code |-> Str(c), msg |-> Str("m")] :
               d \in {[t |-> "def"], Str("Deny"), Str("deny"), Ref(13), Ref(14)}, r \in {"", "urn:r"}, ob \in {Odd("none"), Ref(15)},
               c \in {ST \o "ok", ST \o "none"}}
       \cup {[o |-> "copy", i |-> i, how |-> "deep"] : i \in DOMAIN h}
Init == h = Parts /\ tr = <<>>
Next == /\ Len(tr) < Depth
        /\ \E op \in Ops : h' = Do(h, op).h /\ tr' = Append(tr, op)
\* histories that lead to the same objects are taken once
Heap == h
Spec == Init /\ [][Next]_vars

\* each slot holds only what belongs there, constants keep their value
Typed == \A i \in DOMAIN h : \A f \in Fields(h[i].c) :
  LET sl == Slot(h[i].c, f)  v == h[i].s[f] IN
  CASE sl.k = "L" -> \A n \in DOMAIN v : h[v[n]].c = sl.of
    [] sl.k = "O" -> v = 0 \/ h[v].c = sl.of
    [] sl.k = "V" -> v \in Words(h[i].c) \cup {"-"}
    [] OTHER -> TRUE
Constant == h[13] = Parts[13]
\* an operation changes one place at most; a copy says the same and shares nothing
RECURSIVE Unfold(_,_)
Unfold(g, i) == [c |-> g[i].c, fix |-> g[i].fix,
                 s |-> [f \in DOMAIN g[i].s |-> LET sl == Slot(g[i].c, f)  v == g[i].s[f] IN
                        IF sl.k = "L" THEN [n \in DOMAIN v |-> Unfold(g, v[n])]
                        ELSE IF sl.k = "O" THEN (IF v = 0 THEN <<>> ELSE <<Unfold(g, v)>>) ELSE v]]
Frame == [][LET op == tr'[Len(tr')]  r == Do(h, op) IN
            /\ ~r.ok => h' = h
            /\ op.o \notin {"copy", "made"} => Len(h') = Len(h) /\ \A i \in DOMAIN h : \A f \in DOMAIN h[i].s : h'[i].s[f] # h[i].s[f] => i = op.i /\ f = op.f
            /\ op.o = "made" => SubSeq(h', 1, Len(h)) = h
            /\ op.o = "copy" => /\ SubSeq(h', 1, Len(h)) = h
                                /\ Unfold(h', Len(h) + 1) = Unfold(h, op.i)
                                /\ \A j \in DOMAIN h : ~Has(Reach(h', Len(h) + 1, <<>>), j)]_vars
EmitH == Emit /\ Len(tr) = Depth => PrintT(<<"@@HIST", ToJson([tr |-> tr])>>)
EmitI == Emit /\ tr = <<>> => PrintT(<<"@@INIT", ToJson([h |-> Parts])>>)
=============================================================================
