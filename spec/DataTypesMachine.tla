-------------------------- MODULE DataTypesMachine --------------------------
(* Every history of up to Depth registrations, refused ones included, and   *)
(* uses of the data types.                                                  *)
EXTENDS DataTypes, Json
CONSTANTS Depth, UsedIds, UsedClasses, UsedReaders, Emit
VARIABLES s, tr
vars == <<s, tr>>

A(ty, v) == [ty |-> ty, s |-> v]
Text == [s |-> "7", up |-> "7", int |-> "7"]
Word == [s |-> "ab", up |-> "AB", int |-> ""]
Natives == {A("str", "7"), A("int", "7")}
Ops == {[o |-> "add", id |-> i, c |-> c, ow |-> w] : i \in UsedIds, c \in UsedClasses, w \in BOOLEAN}
       \cup {[o |-> "reader", id |-> i, r |-> r] : i \in UsedIds, r \in UsedReaders}
       \cup {[o |-> "make", id |-> i] : i \in UsedIds}
       \cup {[o |-> "lit", id |-> i, x |-> x] : i \in UsedIds, x \in {Text, Word}}
       \cup {[o |-> "decide", id |-> i, x |-> Text, vs |-> <<a>>, how |-> "objects"] : i \in UsedIds, a \in Natives}
       \cup {[o |-> "set", i |-> i, a |-> a] : i \in DOMAIN s.h, a \in Natives}
       \cup {[o |-> "cmp", i |-> i, j |-> j, how |-> "eq"] : i \in DOMAIN s.h, j \in DOMAIN s.h}
Init == s = Start /\ tr = <<>>
Next == /\ Len(tr) < Depth
        /\ \E o \in Ops : \E r \in Do(s, o) : s' = r.s /\ tr' = Append(tr, o)
Spec == Init /\ [][Next]_vars

\* a value only ever holds what its class takes
TypeSafe == \A i \in DOMAIN s.h : s.h[i].v = "" \/ \E a \in Natives \cup {A("str", "ab"), A("str", "AB"), A("tuple", "7"), A("tuple", "ab")} :
                                                     Written(a) = s.h[i].v /\ Accepts(s.h[i].c, a)
OnlyClasses == \A i \in DOMAIN s.m : s.m[i] \in Classes \cup Abstract
\* one step touches one identifier, and only an overwriting registration a taken one
OthersStay == [][LET changed == {i \in Ids : (i \in DOMAIN s'.m /\ i \notin DOMAIN s.m) \/ (i \in DOMAIN s.m /\ s'.m[i] # s.m[i])}
                     last == tr'[Len(tr')]
                 IN /\ Cardinality(changed) <= 1
                    /\ DOMAIN s.m \subseteq DOMAIN s'.m
                    /\ \A i \in changed : last.o = "add" /\ last.id = i /\ (i \in DOMAIN s.m => last.ow)]_vars
\* a value never changes class, and values made earlier do not change when a registration is made
ValuesStay == [][LET last == tr'[Len(tr')]
                 IN /\ \A i \in DOMAIN s.h : s'.h[i].c = s.h[i].c
                    /\ last.o \in {"add", "reader"} => s'.h = s.h]_vars
EmitH == Emit /\ Len(tr) = Depth => PrintT(<<"@@HIST", ToJson(tr)>>)
=============================================================================
