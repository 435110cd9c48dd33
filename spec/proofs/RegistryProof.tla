--------------------------- MODULE RegistryProof ---------------------------
(***************************************************************************)
(* The caching registry of RegistryMachine.tla, for any set of maps and    *)
(* identifiers and histories of any length.  Proved with TLAPS: the cache  *)
(* always answers what the abstract registry says, no registration ever    *)
(* touches a standard identifier, and an identifier's answer changes only  *)
(* by an accepted registration of that identifier in that map.             *)
(***************************************************************************)
EXTENDS TLAPS
CONSTANTS Maps, Std, StdNo, Alien, Cust,   \* identifiers by class
          Tags, Good, Bad                  \* implementations; ways of registering
Ids == Std \cup StdNo \cup Alien \cup Cust
ASSUME Classes ==
  /\ Std \cap StdNo = {} /\ (Std \cup StdNo) \cap (Alien \cup Cust) = {} /\ Alien \cap Cust = {}
  /\ Good \cap Bad = {}
  /\ "std" \notin Tags /\ "none" \notin Tags /\ "?" \notin Tags

VARIABLES abs,    \* map, identifier -> the tag last given, "none" if never
          cache,  \* map, identifier -> what is remembered, "?" if nothing is
          seen    \* the last answer: [m, id, v]
vars == <<abs, cache, seen>>

Resolve(m, id) == IF id \in Std THEN "std" ELSE IF id \in StdNo THEN "none" ELSE abs[m][id]
Fresh(id) == IF id \in Std THEN "std" ELSE "none"

Init == /\ abs = [m \in Maps |-> [id \in Ids |-> "none"]]
        /\ cache = [m \in Maps |-> [id \in Ids |-> "?"]]
        /\ seen = [m |-> "-", id |-> "-", v |-> "-"]

Look(m, id) ==
  /\ abs' = abs
  /\ IF cache[m][id] # "?"
     THEN cache' = cache /\ seen' = [m |-> m, id |-> id, v |-> cache[m][id]]
     ELSE /\ cache' = (IF id \in Alien THEN cache ELSE [cache EXCEPT ![m][id] = Fresh(id)])
          /\ seen' = [m |-> m, id |-> id, v |-> Fresh(id)]
LoadAll(m) ==
  /\ UNCHANGED <<abs, seen>>
  /\ cache' = [cache EXCEPT ![m] = [id \in Ids |-> IF id \in Std \cup StdNo /\ cache[m][id] = "?"
                                                   THEN Fresh(id) ELSE cache[m][id]]]
Accepted(id, how) == id \notin Std \cup StdNo /\ how \in Good
Register(m, id, how, tag) ==
  /\ UNCHANGED seen
  /\ IF Accepted(id, how)
     THEN abs' = [abs EXCEPT ![m][id] = tag] /\ cache' = [cache EXCEPT ![m][id] = tag]
     ELSE UNCHANGED <<abs, cache>>
Next == \/ \E m \in Maps, id \in Ids : Look(m, id)
        \/ \E m \in Maps : LoadAll(m)
        \/ \E m \in Maps, id \in Ids, how \in Good \cup Bad, tag \in Tags : Register(m, id, how, tag)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == /\ abs \in [Maps -> [Ids -> Tags \cup {"none"}]]
          /\ cache \in [Maps -> [Ids -> Tags \cup {"none", "std", "?"}]]
CacheAgrees == \A m \in Maps, id \in Ids : cache[m][id] # "?" => cache[m][id] = Resolve(m, id)
\* what is not remembered was never given
Unseen == \A m \in Maps, id \in Ids : cache[m][id] = "?" => abs[m][id] = "none"
StdSafe == \A m \in Maps, id \in Std \cup StdNo : abs[m][id] = "none"
Inv == TypeOK /\ CacheAgrees /\ Unseen /\ StdSafe

THEOREM Correct == Spec => []Inv
<1>1. Init => Inv
  BY DEF Init, Inv, TypeOK, CacheAgrees, Unseen, StdSafe, Ids
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF vars, Inv, TypeOK, CacheAgrees, Unseen, StdSafe, Resolve
  <2>2. ASSUME NEW m \in Maps, NEW id \in Ids, Look(m, id) PROVE Inv'
    <3>1. Fresh(id) = Resolve(m, id) \/ cache[m][id] # "?"
      BY DEF Inv, Unseen, Fresh, Resolve
    <3>2. Fresh(id) \in {"std", "none"}
      BY DEF Fresh
    <3> QED
      BY <2>2, <3>1, <3>2 DEF Look, Inv, TypeOK, CacheAgrees, Unseen, StdSafe, Resolve
  <2>3. ASSUME NEW m \in Maps, LoadAll(m) PROVE Inv'
    <3>1. \A id \in Std \cup StdNo : Fresh(id) = Resolve(m, id) /\ Fresh(id) \in {"std", "none"}
      BY Classes DEF Fresh, Resolve
    <3> QED
      BY <2>3, <3>1 DEF LoadAll, Inv, TypeOK, CacheAgrees, Unseen, StdSafe, Resolve, Ids
  <2>4. ASSUME NEW m \in Maps, NEW id \in Ids, NEW how \in Good \cup Bad, NEW tag \in Tags, Register(m, id, how, tag) PROVE Inv'
    <3>1. CASE Accepted(id, how)
      <4>1. abs' = [abs EXCEPT ![m][id] = tag] /\ cache' = [cache EXCEPT ![m][id] = tag]
        BY <2>4, <3>1 DEF Register
      <4>2. tag # "?" /\ tag # "none" /\ id \notin Std /\ id \notin StdNo
        BY <3>1, Classes DEF Accepted
      <4>3. TypeOK'
        BY <4>1 DEF Inv, TypeOK
      <4>4. \A k \in Maps, i \in Ids : (k # m \/ i # id) => abs'[k][i] = abs[k][i] /\ cache'[k][i] = cache[k][i]
        BY <4>1 DEF Inv, TypeOK
      <4>5. abs'[m][id] = tag /\ cache'[m][id] = tag
        BY <4>1 DEF Inv, TypeOK
      <4>6. CacheAgrees' /\ Unseen'
        BY <4>2, <4>4, <4>5 DEF Inv, CacheAgrees, Unseen, Resolve
      <4>7. StdSafe'
        BY <4>2, <4>4 DEF Inv, StdSafe, Ids
      <4> QED
        BY <4>3, <4>6, <4>7 DEF Inv
    <3>2. CASE ~Accepted(id, how)
      BY <2>4, <3>2 DEF Register, Inv, TypeOK, CacheAgrees, Unseen, StdSafe, Resolve
    <3> QED
      BY <3>1, <3>2
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

\* an answer is the abstract registry's
THEOREM Answers == ASSUME Inv, NEW m \in Maps, NEW id \in Ids, Look(m, id) PROVE seen'.v = Resolve(m, id)
  BY DEF Inv, Look, CacheAgrees, Unseen, Resolve, Fresh

\* what an identifier stands for changes only by an accepted registration of it
Stable == [][\A m \in Maps, id \in Ids : Resolve(m, id)' # Resolve(m, id) =>
               \E how \in Good, tag \in Tags : id \notin Std \cup StdNo /\ Register(m, id, how, tag)]_vars
THEOREM Spec => Stable
<1>1. Inv /\ [Next]_vars => [\A m \in Maps, id \in Ids : Resolve(m, id)' # Resolve(m, id) =>
               \E how \in Good, tag \in Tags : id \notin Std \cup StdNo /\ Register(m, id, how, tag)]_vars
  <2> SUFFICES ASSUME Inv, Next, NEW m \in Maps, NEW id \in Ids, Resolve(m, id)' # Resolve(m, id)
               PROVE \E how \in Good, tag \in Tags : id \notin Std \cup StdNo /\ Register(m, id, how, tag)
    OBVIOUS
  <2>1. id \notin Std \cup StdNo /\ abs'[m][id] # abs[m][id]
    BY DEF Resolve
  <2>2. ~\E k \in Maps, i \in Ids : Look(k, i)
    BY <2>1 DEF Look
  <2>3. ~\E k \in Maps : LoadAll(k)
    BY <2>1 DEF LoadAll
  <2>4. PICK k \in Maps, i \in Ids, how \in Good \cup Bad, tag \in Tags : Register(k, i, how, tag)
    BY <2>2, <2>3 DEF Next
  <2>5. k = m /\ i = id /\ how \in Good
    BY <2>1, <2>4 DEF Register, Accepted, Inv, TypeOK
  <2> QED
    BY <2>1, <2>4, <2>5
<1> QED
  BY <1>1, Correct, PTL DEF Spec, Stable
=============================================================================
