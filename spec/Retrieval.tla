------------------------------ MODULE Retrieval ------------------------------
(***************************************************************************)
(* Attribute designators and the external attribute lookup as a machine:   *)
(* the holders (subjects, resources, ...) of a category are visited in     *)
(* order, each of their attributes is taken or passed over, and for        *)
(* subjects the context handler is asked and may answer, stay silent, fail *)
(* or answer with another type.  Checked against a direct statement of     *)
(* what the bag must hold.                                                 *)
(***************************************************************************)
EXTENDS Xacml, Json
CONSTANTS Mode, Emit, Big

SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
AttrU == [id : {"urn:a:one", "urn:a:two"}, t : {"string", "anyURI"}, iss : {"", "i", "j"},
          vals : IF Big THEN {<<>>, <<"x">>, <<"x", "y">>} ELSE {<<>>, <<"x", "y">>}]
Leak == [id |-> "urn:a:one", t |-> "string", iss |-> "i", vals |-> <<"leak">>]
Holders == {<<q>> : q \in SeqsOf(AttrU, 0, 2)} \cup {<<<<p>>, <<q>>>> : p \in AttrU, q \in AttrU} \cup {<<>>}

DesU == [k : {"des"}, cat : {"S", "R", "A", "E"}, id : {"urn:a:one"}, t : {"string"}, iss : {"", "i"}, mbp : BOOLEAN]

\* the category under test holds h, every other category holds a decoy
Request(c, h) == [S |-> IF c = "S" THEN h ELSE <<<<Leak>>>>, R |-> IF c = "R" THEN h ELSE <<<<Leak>>>>,
                  A |-> IF c = "A" THEN h ELSE <<<<Leak>>>>, E |-> IF c = "E" THEN h ELSE <<<<Leak>>>>,
                  pip |-> <<>>, doc |-> <<>>]

SubjC == {<<>>, <<"x">>, <<"y", "x">>, <<"x", "x">>}
Mk(vs) == IF vs = <<>> THEN <<>> ELSE <<[id |-> "urn:a:one", t |-> "string", iss |-> "", vals |-> vs]>>
Rows == {[id |-> "urn:a:one", out |-> o, t |-> "string", vals |-> <<>>] : o \in {"none", "raise"}}
        \cup {[id |-> "urn:a:one", out |-> "vals", t |-> t, vals |-> q] :
                 t \in {"string", "anyURI"}, q \in {<<>>, <<"x">>, <<"z">>, <<"x", "z">>, <<"z", "w">>}}
        \cup {[id |-> "urn:a:two", out |-> "vals", t |-> "string", vals |-> <<"z">>]}
PipRequests == {[S |-> ss, R |-> <<Mk(<<"x">>)>>, A |-> <<>>, E |-> <<>>, pip |-> p, doc |-> <<>>] :
                   ss \in {[i \in DOMAIN q |-> Mk(q[i])] : q \in SeqsOf(SubjC, 0, 2)},
                   p \in {<<>>} \cup {<<[tab |-> <<r>>]>> : r \in Rows} \cup {<<[tab |-> <<>>]>>}}

Cases == IF Mode = "pip"
         THEN {<<d, rq>> : d \in {x \in DesU : x.cat \in {"S", "R"} /\ x.iss = ""}, rq \in PipRequests}
         ELSE UNION {{<<d, Request(d.cat, h)>> : h \in {h \in Holders : d.cat \in {"S", "R"} \/ Len(h) <= 1}} :
                        d \in {x \in DesU : x.cat = Mode}}

VARIABLES des, req, hold, attr,  \* cursors: next holder, next attribute in it
          bag, res               \* res: "", "bag" or "err"
vars == <<des, req, hold, attr, bag, res>>

Init == /\ \E c \in Cases : des = c[1] /\ req = c[2]
        /\ hold = 1 /\ attr = 1 /\ bag = <<>> /\ res = ""

Hs == CASE des.cat = "S" -> req.S [] des.cat = "R" -> req.R [] des.cat = "A" -> req.A [] des.cat = "E" -> req.E
In == res = "" /\ hold <= Len(Hs)

Take == /\ In /\ attr <= Len(Hs[hold]) /\ AttrHits(des, Hs[hold][attr])
        /\ bag' = bag \o Hs[hold][attr].vals /\ attr' = attr + 1 /\ UNCHANGED <<des, req, hold, res>>
Pass == /\ In /\ attr <= Len(Hs[hold]) /\ ~AttrHits(des, Hs[hold][attr])
        /\ attr' = attr + 1 /\ UNCHANGED <<des, req, hold, bag, res>>
EndHolder == In /\ attr = Len(Hs[hold]) + 1
Asks == des.cat = "S" /\ req.pip # <<>>
Answer == PipFor(req.pip[1], des)
NoAsk == EndHolder /\ ~Asks /\ hold' = hold + 1 /\ attr' = 1 /\ UNCHANGED <<des, req, bag, res>>
AskSilent == EndHolder /\ Asks /\ Answer.out = "none" /\ hold' = hold + 1 /\ attr' = 1 /\ UNCHANGED <<des, req, bag, res>>
AskFails == /\ EndHolder /\ Asks /\ (Answer.out = "raise" \/ (Answer.out = "vals" /\ Answer.t # des.t /\ Answer.vals # <<>>))
            /\ res' = "err" /\ UNCHANGED <<des, req, hold, attr, bag>>
AskGets == /\ EndHolder /\ Asks /\ Answer.out = "vals" /\ (Answer.t = des.t \/ Answer.vals = <<>>)
           /\ bag' = bag \o NotIn(des.t, Answer.vals, bag) /\ hold' = hold + 1 /\ attr' = 1 /\ UNCHANGED <<des, req, res>>
Judge == /\ res = "" /\ hold = Len(Hs) + 1
         /\ res' = (IF bag = <<>> /\ des.mbp THEN "err" ELSE "bag") /\ UNCHANGED <<des, req, hold, attr, bag>>
Done == res # "" /\ UNCHANGED vars
Next == Take \/ Pass \/ NoAsk \/ AskSilent \/ AskFails \/ AskGets \/ Judge \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Pass \/ NoAsk \/ AskSilent \/ AskFails \/ AskGets \/ Judge)

----------------------------------------------------------------------------
\* direct statement: which positions of the request contribute
Own(x) == Cardinality({<<i, j, k>> \in (1..2) \X (1..2) \X (1..3) :
            /\ i <= Len(Hs) /\ j <= Len(Hs[i]) /\ k <= Len(Hs[i][j].vals)
            /\ Hs[i][j].id = des.id /\ Hs[i][j].t = des.t /\ (des.iss # "" => Hs[i][j].iss = des.iss)
            /\ Hs[i][j].vals[k] = x})
Values == {"x", "y", "z", "w", "leak"}
CountIn(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
ExactBag == res = "bag" /\ ~Asks => \A x \in Values : CountIn(bag, x) = Own(x)
NoLeak   == res = "bag" => CountIn(bag, "leak") = 0
LookupAdds == res = "bag" /\ Asks /\ Hs # <<>> =>
                \A x \in Values : CountIn(bag, x) >= Own(x) /\
                   (Own(x) = 0 => (CountIn(bag, x) = 1) = (Answer.out = "vals" /\ x \in RangeOf(Answer.vals)))
MbpIff   == res # "" /\ ~Asks => (res = "err") = (des.mbp /\ \A x \in Values : Own(x) = 0)
FailsSafe == Asks /\ Hs # <<>> /\ Answer.out = "raise" /\ res # "" => res = "err"
Agrees   == res # "" => EvalDes(des, req) = (IF res = "err" THEN Err ELSE Bag(des.t, bag))
Ends == <>(res # "")
EmitC == IF Emit /\ hold = 1 /\ attr = 1 /\ bag = <<>> /\ res = "" THEN PrintT(<<"@@DES", ToJson([des |-> des, rq |-> req])>>) ELSE TRUE
=============================================================================
