---------------------------- MODULE PluginMachine ----------------------------
(* Every history of up to Depth operations on the slots in On (Plugins).    *)
EXTENDS Plugins, Json
CONSTANTS Depth, On, Emit
VARIABLES st, hist, ok
vars == <<st, hist, ok>>

Ids(o) == IF Comb(o) THEN {"DO", "PO", "FA", "OO", "c1", "c2", "c3", "c4", "c5", "c6"} ELSE {"eq", "gt", "c1", "c2", "c3", "xx"}
Op(k, o, v) == [o |-> k, on |-> o, v |-> v]
Ops == UNION {
         {Op("plug", o, v) : v \in {"std", "A", "B"}} \cup {Op("badplug", o, v) : v \in {"none", "str", "class", "other"}}
         \cup {Op("id", o, v) : v \in Ids(o)} \cup {Op("badid", o, v) : v \in {"none", "int"}}
         \cup (IF Comb(o) THEN {Op("new", o, v) : v \in {"std", "A", "B"}} \cup {Op("newbad", o, v) : v \in {"str", "class", "other"}}
               ELSE {Op("new", o, "std")} \cup {Op("load", o, v) : v \in BOOLEAN} \cup {Op("badload", o, v) : v \in {"none", "int", "str"}}
                    \cup {Op("fetch", o, v) : v \in {"std", "A", "B", "D"}})
         : o \in On \cap Slots}
       \cup IF "rd" \in On THEN {[o |-> "read", t |-> t, v |-> v] : t \in Readers, v \in {"K1", "K2"}}
                                \cup {[o |-> "badread", t |-> t, v |-> v] : t \in {"Rule", "Condition"}, v \in {"none", "str", "class", "type", "inst"}}
            ELSE {}
Init == st = Start /\ hist = <<>> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : LET r == Do(st, op) IN st' = r.st /\ ok' = r.ok /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
\* what is in force came from something that was plugged in, for an identifier this object once had
Sound == \A o \in Slots : LET x == st.s[o] IN
  x.use # "" => \E p \in {"std", "A", "B"} \cup (IF Comb(o) THEN {} ELSE {"D"}) : \E i \in Ids(o) : Give(o, p, i) = x.use
\* unless told otherwise, an object which never changed its plug has what that gives for its identifier
InStep == \A o \in Slots : LET x == st.s[o]
                               mine == {i \in DOMAIN hist : hist[i].o \in {"plug", "fetch", "load"} /\ hist[i].on = o}
                           IN mine = {} /\ x.id # "" => x.use = Give(o, x.plug, x.id)
Frame == [][LET op == hist'[Len(hist')] IN
            /\ ~ok' => st' = st
            /\ op.o \in {"read", "badread"} => st'.s = st.s /\ \A t \in Readers : t # op.t => st'.rd[t] = st.rd[t]
            /\ op.o \notin {"read", "badread"} => st'.rd = st.rd /\ \A o \in Slots : o # op.on => st'.s[o] = st.s[o]
            /\ op.o \in {"plug", "load"} => st'.s[op.on].use = st.s[op.on].use
            /\ op.o # "plug" /\ op.o # "new" => \A o \in Slots : st'.s[o].plug = st.s[o].plug]_hist
EmitH == Emit /\ Len(hist) = Depth => PrintT(<<"@@HIST", ToJson(hist)>>)
=============================================================================
