---------------------------- MODULE RegistryTrace ----------------------------
(***************************************************************************)
(* Judges recorded registry histories.  An observation is                  *)
(*  look: [r|->"no"] | [r|->"fn", out|-> results of the probe calls]       *)
(*  reg:  [r|->"ok"] | [r|->"refused"]                                     *)
(*  use:  [r|->"no"] (does not load) | [r|->"dec", dec]                    *)
(* A standard function is recognised by the results of op.args, computed   *)
(* here with Xacml!Apply1; a custom one by the tag it answers.             *)
(***************************************************************************)
EXTENDS FunctionRegistry, Json, IOUtils
X == INSTANCE Xacml
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

StdOuts(op) == [i \in DOMAIN op.args |-> X!Apply1(op.id.fam, op.id.ft, op.args[i])]
SameOut(a, b) == a.s = b.s /\ (CASE a.s = "bool" -> a.b = b.b
                                [] a.s = "av" -> a.t = b.t /\ a.v = b.v
                                [] a.s = "bag" -> a.t = b.t /\ a.vs = b.vs
                                [] OTHER -> a.s = "err")

OpWhy(st, op, ob) ==
  LET r == IF op.o \in {"look", "use"} THEN Resolve(st, op.m, op.id) ELSE "-" IN
  CASE op.o = "look" ->
         IF r = "none" THEN IF ob.r = "no" THEN "" ELSE "an identifier without implementation resolves"
         ELSE IF ob.r # "fn" THEN "an implemented identifier does not resolve: " \o ob.d
         ELSE IF r = "std" THEN IF /\ Len(ob.out) = Len(op.args)
                                   /\ \A i \in DOMAIN op.args : SameOut(ob.out[i], StdOuts(op)[i])
                                THEN "" ELSE "a standard identifier resolves to something else: " \o ToString(ob.out)
         ELSE IF ob.tag = r THEN "" ELSE "custom identifier resolves to " \o ob.tag \o " instead of " \o r
    [] op.o = "reg" ->
         IF Accepted(op) THEN IF ob.r = "ok" THEN "" ELSE "a proper registration is refused: " \o ob.d
         ELSE IF ob.r = "refused" THEN "" ELSE "a registration that must be refused is accepted"
    [] op.o = "use" ->
         IF r = "none" THEN IF ob.r = "no" THEN "" ELSE "a policy using an unsupported function loads"
         ELSE IF ob.r # "dec" THEN "a policy using a supported function does not load: " \o ob.d
         ELSE IF r = "std" THEN IF ob.dec \in X!PolVal(op.p, op.rq) THEN "" ELSE "decision with a standard function: " \o ob.dec
         ELSE IF ob.dec = (IF X!Ch(r, 1) = "t" THEN "Permit" ELSE "NotApplicable") THEN ""
              ELSE "decision with a custom function: " \o ob.dec
    [] OTHER -> ""

RECURSIVE Walk(_,_,_)
Walk(x, st, i) ==
  IF i > Len(x.ops) THEN ""
  ELSE LET w == OpWhy(st, x.ops[i], x.obs[i]) IN
       IF w # "" THEN "step " \o ToString(i) \o " (" \o x.ops[i].o \o "): " \o w
       ELSE Walk(x, Post(st, x.ops[i]), i + 1)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE IF Len(x.obs) # Len(x.ops) THEN "history not completed"
          ELSE Walk(x, InitReg, 1)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
