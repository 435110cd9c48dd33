----------------------------- MODULE PdpMachine -----------------------------
(***************************************************************************)
(* Small-step decision point.  A policy tree is evaluated by a stack of    *)
(* frames; the outcome of every target and condition is scripted: "T", "F" *)
(* or "E" (an error raised anywhere inside it).  An error unwinds to the   *)
(* nearest rule, policy or policy set, which becomes Indeterminate.        *)
(* Checked: the run ends, with exactly the compositional decision; errors  *)
(* never grant; every Permit has a permitting rule behind it.              *)
(***************************************************************************)
EXTENDS Xacml, Json
CONSTANTS Mode,       \* which family of trees is explored
          Emit

Tri3 == {"T", "F", "E"}
Rule(e, t, c) == [k |-> "R", eff |-> e, t |-> t, c |-> c]
Pol(a, t, q)  == [k |-> "P", alg |-> a, t |-> t, kids |-> q]
Set(a, t, q)  == [k |-> "PS", alg |-> a, t |-> t, kids |-> q]

SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}
AllRules   == {Rule(e, t, c) : e \in Effects, t \in Tri3, c \in Tri3}
\* one representative per way of reaching each outcome
SomeRules  == {Rule("Permit", "T", "T"), Rule("Deny", "T", "T"), Rule("Permit", "T", "E"),
               Rule("Deny", "E", "T"), Rule("Permit", "F", "E")}
Leaves     == {Pol("deny-overrides", "T", <<r>>) : r \in SomeRules}
Gated      == {Pol(a, t, q) : a \in Algs, t \in Tri3, q \in SeqsOf({Rule("Permit", "T", "T"), Rule("Deny", "T", "E")}, 1)}

Trees ==
  CASE Mode = "rule"   -> {Pol(a, t, <<r>>) : a \in Algs, t \in Tri3, r \in AllRules}
    [] Mode = "policy" -> {Pol(a, t, q) : a \in Algs, t \in Tri3, q \in SeqsOf(SomeRules, 3)}
    [] Mode = "set"    -> {Set(a, t, q) : a \in Algs, t \in Tri3, q \in SeqsOf(Gated, 2)}
    [] Mode = "deep"   -> {Set(a, t, <<Set(b, u, q), x>>) : a \in Algs, t \in {"T", "E"}, b \in Algs, u \in Tri3,
                             q \in SeqsOf(Leaves, 2), x \in Leaves}

VARIABLES tree, stack,  \* frames [node, at: "start"/"body", outs]
          ret           \* decision being returned ("" if none)
vars == <<tree, stack, ret>>

Frame(n) == [node |-> n, at |-> "start", outs |-> <<>>]
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

Init == tree \in Trees /\ stack = <<Frame(tree)>> /\ ret = ""

Running == stack # <<>> /\ ret = ""

\* the target of the element on top: no match, or an error while matching
TargetNo  == Running /\ Top.at = "start" /\ Top.node.t = "F" /\ ret' = "NotApplicable" /\ stack' = Pop /\ UNCHANGED tree
TargetErr == Running /\ Top.at = "start" /\ Top.node.t = "E" /\ ret' = "Indeterminate" /\ stack' = Pop /\ UNCHANGED tree
TargetYes == /\ Running /\ Top.at = "start" /\ Top.node.t = "T"
             /\ stack' = [stack EXCEPT ![Len(stack)].at = "body"] /\ UNCHANGED <<tree, ret>>

\* a rule whose target matched
RuleCond == /\ Running /\ Top.at = "body" /\ Top.node.k = "R"
            /\ ret' = (CASE Top.node.c = "T" -> Top.node.eff [] Top.node.c = "F" -> "NotApplicable"
                         [] OTHER -> "Indeterminate")
            /\ stack' = Pop /\ UNCHANGED tree

Inner == Running /\ Top.at = "body" /\ Top.node.k # "R"

\* may the algorithm stop before all its children are evaluated?
Settled(n, outs) ==
  LET os == {outs[i].o : i \in DOMAIN outs} IN
  CASE n.alg = "deny-overrides"   -> "Deny" \in os \/ (n.k = "PS" /\ "Indeterminate" \in os)
    [] n.alg = "permit-overrides" -> "Permit" \in os
    [] n.alg = "first-applicable" -> os \ {"NotApplicable"} # {}

Call == /\ Inner /\ Len(Top.outs) < Len(Top.node.kids) /\ ~Settled(Top.node, Top.outs)
        /\ stack' = Append(stack, Frame(Top.node.kids[Len(Top.outs) + 1])) /\ UNCHANGED <<tree, ret>>

Combine(n, outs) == IF n.k = "P" THEN CombineRules(n.alg, outs) ELSE CombinePolicies(n.alg, Outs(outs))

Finish == /\ Inner /\ (Len(Top.outs) = Len(Top.node.kids) \/ Settled(Top.node, Top.outs))
          /\ ret' = Combine(Top.node, Top.outs) /\ stack' = Pop /\ UNCHANGED tree

Deliver == /\ ret # "" /\ stack # <<>>
           /\ LET kid == Top.node.kids[Len(Top.outs) + 1] IN
              stack' = [stack EXCEPT ![Len(stack)].outs =
                          Append(@, [o |-> ret, e |-> IF kid.k = "R" THEN kid.eff ELSE "-"])]
           /\ ret' = "" /\ UNCHANGED tree

Done == stack = <<>> /\ UNCHANGED vars
Next == TargetNo \/ TargetErr \/ TargetYes \/ RuleCond \/ Call \/ Finish \/ Deliver \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
RECURSIVE Value(_)
Value(n) == IF n.t = "F" THEN "NotApplicable" ELSE IF n.t = "E" THEN "Indeterminate"
            ELSE IF n.k = "R" THEN RuleTable("T", n.c, n.eff)
            ELSE Combine(n, [i \in DOMAIN n.kids |-> [o |-> Value(n.kids[i]),
                                 e |-> IF n.kids[i].k = "R" THEN n.kids[i].eff ELSE "-"]])

RECURSIVE Granting(_)       \* an applicable permitting rule under matching targets
Granting(n) == n.t = "T" /\ IF n.k = "R" THEN n.c = "T" /\ n.eff = "Permit"
                            ELSE \E i \in DOMAIN n.kids : Granting(n.kids[i])

RECURSIVE OnlyErrors(_)     \* everything applicable in it fails
OnlyErrors(n) == \/ n.t = "E"
                 \/ n.t = "T" /\ IF n.k = "R" THEN n.c = "E"
                                 ELSE n.kids # <<>> /\ \A i \in DOMAIN n.kids : OnlyErrors(n.kids[i])

Ended == stack = <<>>
TypeOK       == ret \in Decisions \cup {""} /\ (Ended => ret # "")
Compositional == Ended => ret = Value(tree)
GrantHasReason == Ended /\ ret = "Permit" => Granting(tree)
ErrorsNeverGrant == Ended /\ OnlyErrors(tree) => ret \in {"Indeterminate", "Deny"}
PolicyErrorIsIndeterminate == Ended /\ tree.k = "P" /\ OnlyErrors(tree) => ret = "Indeterminate"
Ends == <>Ended

EmitC == IF Emit /\ Ended THEN PrintT(<<"@@TREE", ToJson([tree |-> tree, dec |-> ret])>>) ELSE TRUE
=============================================================================
