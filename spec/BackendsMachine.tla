-------------------------- MODULE BackendsMachine ---------------------------
(* Both trees grow item by item, for every content of up to Max items.      *)
EXTENDS Backends, Json
CONSTANTS Max, Items, Emit
VARIABLES is, keep, drop
vars == <<is, keep, drop>>
Init == is = <<>> /\ keep = Empty /\ drop = Empty
Next == /\ Len(is) < Max
        /\ \E i \in Items : is' = Append(is, i) /\ keep' = Keeping(keep, i) /\ drop' = Dropping(drop, i)
Spec == Init /\ [][Next]_vars

SameText == Text(keep) = Text(drop)
SameElements == Len(Elements(keep)) = Len(Elements(drop)) /\ Len(Elements(keep)) = Number(is)
Complete == Number(is) = 0 => Text(keep) = Said(is, 1)
\* text once read past an element never changes: reading in one pass is enough
Settled == [][Number(is) > 0 => Text(keep') = Text(keep)]_vars
EmitD == Emit => PrintT(<<"@@ITEMS", ToJson(is)>>)
=============================================================================
