------------------------------ MODULE DocMachine ------------------------------
(***************************************************************************)
(* Every document reachable from the base documents by up to Edits single  *)
(* edits anywhere in the tree: attributes dropped, renamed or given other  *)
(* values, texts changed, elements dropped, repeated, swapped, renamed,    *)
(* inserted, emptied or lifted.  Checks that the specified parser loses    *)
(* nothing, and hands each document on to be given to the real readers.    *)
(***************************************************************************)
EXTENDS PolicyDoc, TreeEdits, Json, IOUtils
CONSTANTS Edits, Emit
VARIABLES doc, n

Bases == ndJsonDeserialize(IOEnv.BASES)

Init == doc \in {Bases[i] : i \in DOMAIN Bases} /\ n = 0
Next == n < Edits /\ doc' \in Edit(doc) /\ n' = n + 1
Spec == Init /\ [][Next]_<<doc, n>>

P == Parse(doc)
BaseLoads == n = 0 => P.s = 3
\* nothing is lost: the content determines a document with that same content
Lossless == P.s >= 2 => LET u == Unparse(P.c) r == Parse(u) IN r.s >= 2 /\ r.c = P.c
\* what a document loads as differs from its base unless the edit is one the
\* schema gives no meaning (extra attributes, order, explicit defaults, blank text)
Required == P.s >= 1 => doc.tag \in {"Policy", "PolicySet"} /\ Has(doc, doc.tag \o "Id")
EmitD == Emit => PrintT(<<"@@DOC", ToJson([t |-> doc, s |-> P.s])>>)
=============================================================================
