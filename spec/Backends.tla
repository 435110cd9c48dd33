------------------------------ MODULE Backends ------------------------------
(***************************************************************************)
(* One document, two kinds of element tree.                                *)
(*                                                                         *)
(* A parser reports what is inside an element as a sequence of items:      *)
(*   "a" " " "d" "r"  character data (plain, blank, CDATA, a reference)    *)
(*   "c" "p"          a comment, a processing instruction                  *)
(*   "e"              a child element                                      *)
(* The standard library's tree leaves comments and instructions out, the   *)
(* other keeps them as nodes: what follows one is that node's tail.        *)
(*   tree [text, kids]   kids: sequence of [k, tail]                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Chars == ("a" :> "a") @@ (" " :> " ") @@ ("d" :> "<b") @@ ("r" :> "&")
Empty == [text |-> "", kids |-> <<>>]
Say(t, x) == IF t.kids = <<>> THEN [t EXCEPT !.text = @ \o x] ELSE [t EXCEPT !.kids[Len(t.kids)].tail = @ \o x]
Node(t, k) == [t EXCEPT !.kids = Append(@, [k |-> k, tail |-> ""])]
\* the tree after one more item
Keeping(t, i)  == IF i \in DOMAIN Chars THEN Say(t, Chars[i]) ELSE Node(t, i)
Dropping(t, i) == IF i \in {"c", "p"} THEN t ELSE Keeping(t, i)

\* reading: the text up to the first child element, and the child elements, whatever the tree
RECURSIVE Tails(_,_)
Tails(ks, j) == IF j > Len(ks) \/ ks[j].k = "e" THEN "" ELSE ks[j].tail \o Tails(ks, j + 1)
Text(t) == t.text \o Tails(t.kids, 1)
Elements(t) == SelectSeq(t.kids, LAMBDA k : k.k = "e")

\* what the items say
RECURSIVE Said(_,_)
Said(is, j) == IF j > Len(is) THEN "" ELSE (IF is[j] \in DOMAIN Chars THEN Chars[is[j]] ELSE "") \o Said(is, j + 1)
Number(is) == Cardinality({j \in DOMAIN is : is[j] = "e"})
=============================================================================
