-------------------------- MODULE RegistryMachine --------------------------
(***************************************************************************)
(* A registry that resolves lazily and keeps a cache, as implementations   *)
(* do: standard functions are made on first use and remembered, missing    *)
(* ones are remembered as missing, registrations overwrite the cache.      *)
(* Checked: whatever the history, the cache answers what the abstract      *)
(* registry (FunctionRegistry!Resolve) says.                               *)
(***************************************************************************)
EXTENDS FunctionRegistry, Json
CONSTANTS Depth, Emit, Tags

Maps == {"g", "f"}
Ids == {[c |-> "std", n |-> "S1"], [c |-> "std", n |-> "S2"], [c |-> "stdno", n |-> "U1"],
        [c |-> "alien", n |-> "X1"], [c |-> "cust", n |-> "C1"]}
Ops == [o : {"look", "load"}, m : Maps, id : Ids]
       \cup [o : {"loadall"}, m : Maps]
       \cup [o : {"use"}, m : {"g"}, id : Ids]
       \cup [o : {"reg"}, m : Maps, id : Ids, how : {"factory", "none"}, tag : Tags]

VARIABLES hist, abs, cache, seen
vars == <<hist, abs, cache, seen>>

Init == /\ hist = <<>>
        /\ abs = InitReg
        /\ cache = [m \in Maps |-> [x \in {} |-> ""]]
        /\ seen = "-"

Put(m, id, v) == [cache EXCEPT ![m] = [x \in DOMAIN @ \cup {id} |-> IF x = id THEN v ELSE @[x]]]

\* what looking up computes when nothing is remembered
Fresh(id) == IF id.c = "std" THEN "std" ELSE "none"
Cached(m, id) == id \in DOMAIN cache[m]

Look(m, id) ==
  IF Cached(m, id) THEN cache' = cache /\ seen' = cache[m][id]
  ELSE /\ cache' = IF id.c = "alien" THEN cache ELSE Put(m, id, Fresh(id))
       /\ seen' = Fresh(id)

Step(op) ==
  /\ hist' = IF Depth = 0 THEN <<op>> ELSE Append(hist, op)   \* 0: no bound, only the last kept
  /\ abs' = Post(abs, op)
  /\ CASE op.o \in {"look", "load", "use"} -> Look(op.m, op.id)
       [] op.o = "loadall" ->
            /\ cache' = [cache EXCEPT ![op.m] =
                  [x \in DOMAIN @ \cup {i \in Ids : i.c \in {"std", "stdno"}} |-> IF x \in DOMAIN @ THEN @[x] ELSE Fresh(x)]]
            /\ seen' = "-"
       [] op.o = "reg" ->
            /\ seen' = "-"
            /\ cache' = IF Accepted(op) THEN Put(op.m, op.id, op.tag) ELSE cache

Next == (Depth = 0 \/ Len(hist) < Depth) /\ \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars

CacheAgrees == \A m \in Maps : \A id \in DOMAIN cache[m] : cache[m][id] = Resolve(abs, m, id)
AnswerRight == hist # <<>> /\ seen # "-" =>
                 LET op == hist[Len(hist)] IN seen = Resolve(abs, op.m, op.id)
StdSafe == \A m \in Maps, id \in Ids : id.c \in {"std", "stdno"} => <<m, id.n>> \notin DOMAIN abs
EmitC == IF Emit /\ Len(hist) = Depth
         THEN PrintT(<<"@@HIST", ToJson([ops |-> hist])>>) ELSE TRUE
=============================================================================
