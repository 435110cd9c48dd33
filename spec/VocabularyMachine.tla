------------------------- MODULE VocabularyMachine -------------------------
(* Every history of up to Depth operations on the constants and on objects  *)
(* made or obtained on the way.                                             *)
EXTENDS Vocabulary, Json
CONSTANTS Depth, Classes, Emit
VARIABLES h, tr
vars == <<h, tr>>

Str(s) == [t |-> "str", s |-> s]
Odd(s) == [t |-> "odd", s |-> s]
Words == {"Permit", "Deny", "NotApplicable", "permit"}
Args(c) == {Str(s) : s \in (IF c = "S" THEN {ST \o "ok", ST \o "unknown"} ELSE Words)} \cup {Odd("none")}
           \cup {[t |-> "obj", j |-> j] : j \in {2, 5} \cup {j \in DOMAIN h : j > 6}}
\* the slots operated on: a constant of each class and what was made
Live == {1, 6} \cup {i \in DOMAIN h : i > 6}
Ops == {[o |-> "new", c |-> c, a |-> a] : c \in Classes, a \in {Str("Deny"), Str("deny"), [t |-> "obj", j |-> 1]}}
       \cup {[o |-> "make", c |-> c] : c \in Classes}
       \cup {[o |-> "copy", i |-> i, how |-> "deep"] : i \in {x \in Live : h[x].c # "S"}}
       \cup {[o |-> "from", c |-> "D", v |-> v, how |-> "response"] : v \in Decisions}
       \cup (IF "D" \in Classes THEN {[o |-> "made", c |-> "D", j |-> j] : j \in {1, 5} \cup {j \in DOMAIN h : j > 6}} ELSE {})
       \cup {[o |-> "from", c |-> "E", v |-> v, how |-> "policy"] : v \in Effects}
       \cup UNION {{[o |-> "set", i |-> i, a |-> a] : a \in Args(h[i].c)} : i \in Live}
       \cup UNION {{[o |-> "cmp", i |-> i, a |-> a, how |-> w] : a \in Args(h[i].c), w \in {"eq", "ne", "req"}} : i \in {x \in Live : h[x].c # "S"}}
Init == h = Constants /\ tr = <<>>
Next == /\ Len(tr) < Depth
        /\ \E o \in Ops : \E r \in Do(h, o) : h' = r.h /\ tr' = Append(tr, o)
Spec == Init /\ [][Next]_vars

InVocabulary == \A i \in DOMAIN h : h[i].v \in Vocab(h[i].c) \/ (h[i].c = "S" /\ h[i].v = "")
ConstantsStay == SubSeq(h, 1, Len(Constants)) = Constants
OneAtATime == [][Cardinality({i \in DOMAIN h : h'[i] # h[i]}) <= 1]_vars
EmitH == Emit /\ Len(tr) = Depth => PrintT(<<"@@HIST", ToJson(tr)>>)
=============================================================================
