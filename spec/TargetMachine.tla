--------------------------- MODULE TargetMachine ---------------------------
(***************************************************************************)
(* Target matching as a machine: sections, alternatives, matches and the   *)
(* values of each match's bag are visited in order; each comparison of the *)
(* policy value with a request value is true, false or an error.  A        *)
(* visitor may stop looking at a level once that level is settled.  An     *)
(* error ends the evaluation.  Checked: the result is one the XACML match  *)
(* tables allow, whatever the visitor skips.                               *)
(***************************************************************************)
EXTENDS Xacml, Json
CONSTANTS Mode, Emit

\* a target is a sequence of sections; section: alternatives; alternative:
\* matches; match: outcomes of the comparisons over its bag
V == {"T", "F", "E"}
SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
One(o)  == <<o>>
Matches == {<<"T">>, <<"F">>, <<"E">>}
AltsOf(M) == SeqsOf(M, 1, 2)
SectKinds == { <<>>, <<One(<<"T">>)>>, <<One(<<"F">>)>>, <<One(<<"E">>)>>, <<One(<<"F">>), One(<<"T">>)>>,
               <<One(<<"E">>), One(<<"T">>)>>, << <<<<"T">>, <<"F">>>> >>, << <<<<"T">>, <<>>>> >> }
Targets ==
  CASE Mode = "bag"   -> {<< <<One(b)>>, <<>>, <<>>, <<>> >> : b \in SeqsOf(V, 0, 3)}
    [] Mode = "alts"  -> {<< <<>>, a, <<>>, <<>> >> : a \in SeqsOf(AltsOf(Matches), 1, 2)}
    [] Mode = "sects" -> {<<a, b, c, d>> : a \in SectKinds, b \in SectKinds, c \in SectKinds, d \in SectKinds}
    [] Mode = "two"   -> {<<a, b, <<>>, <<>> >> : a \in SeqsOf(AltsOf(Matches), 1, 2), b \in SeqsOf(AltsOf(Matches), 1, 1)}

VARIABLES tgt, at,   \* cursor <<section, alternative, match, value>>, next to visit
          any, all, some, ok,  \* match so far, alternative so far, section so far, target so far
          res
vars == <<tgt, at, any, all, some, ok, res>>

Init == tgt \in Targets /\ at = <<1, 1, 1, 1>> /\ any = FALSE /\ all = TRUE /\ some = FALSE /\ ok = TRUE /\ res = ""

s == at[1]  a == at[2]  m == at[3]  v == at[4]
InSect  == s <= Len(tgt)
InAlt   == InSect /\ a <= Len(tgt[s])
InMatch == InAlt /\ m <= Len(tgt[s][a])
InValue == InMatch /\ v <= Len(tgt[s][a][m])

Compare ==
  /\ res = "" /\ InValue
  /\ LET o == tgt[s][a][m][v] IN
     IF o = "E" THEN res' = "E" /\ UNCHANGED <<at, any>>
     ELSE any' = (any \/ o = "T") /\ at' = <<s, a, m, v + 1>> /\ res' = ""
  /\ UNCHANGED <<tgt, all, some, ok>>
EndMatch ==       \* bag exhausted, or already true
  /\ res = "" /\ InMatch /\ (~InValue \/ any)
  /\ all' = (all /\ any) /\ any' = FALSE /\ at' = <<s, a, m + 1, 1>> /\ UNCHANGED <<tgt, some, ok, res>>
EndAlt ==         \* matches exhausted, or already false
  /\ res = "" /\ InAlt /\ v = 1 /\ ~any /\ (~InMatch \/ ~all)
  /\ some' = (some \/ all) /\ all' = TRUE /\ at' = <<s, a + 1, 1, 1>> /\ UNCHANGED <<tgt, any, ok, res>>
EndSect ==        \* alternatives exhausted, or already true
  /\ res = "" /\ InSect /\ m = 1 /\ v = 1 /\ all /\ ~any /\ (~InAlt \/ some)
  /\ ok' = (ok /\ (some \/ tgt[s] = <<>>)) /\ some' = FALSE /\ at' = <<s + 1, 1, 1, 1>> /\ UNCHANGED <<tgt, any, all, res>>
End ==            \* sections exhausted, or already false
  /\ res = "" /\ a = 1 /\ m = 1 /\ v = 1 /\ ~some /\ all /\ ~any /\ (~InSect \/ ~ok)
  /\ res' = (IF ok THEN "T" ELSE "F") /\ UNCHANGED <<tgt, at, any, all, some, ok>>
Done == res # "" /\ UNCHANGED vars
Next == Compare \/ EndMatch \/ EndAlt \/ EndSect \/ End \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Compare \/ EndMatch \/ EndAlt \/ EndSect \/ End)

----------------------------------------------------------------------------
MatchSet(b)  == Or3(b)
AltSet(q)    == Lift(And3, [i \in DOMAIN q |-> MatchSet(q[i])])
SectSet(q)   == IF q = <<>> THEN {"T"} ELSE Lift(Or3, [i \in DOMAIN q |-> AltSet(q[i])])
Allowed      == Lift(And3, [i \in DOMAIN tgt |-> SectSet(tgt[i])])

Clean == \A i \in DOMAIN tgt : \A j \in DOMAIN tgt[i] : \A k \in DOMAIN tgt[i][j] : "E" \notin RangeOf(tgt[i][j][k])
Formula == \A i \in DOMAIN tgt : tgt[i] = <<>> \/ \E j \in DOMAIN tgt[i] :
              \A k \in DOMAIN tgt[i][j] : "T" \in RangeOf(tgt[i][j][k])

Sound      == res # "" => res \in Allowed
CleanExact == res # "" /\ Clean => res = (IF Formula THEN "T" ELSE "F")
\* a match can only be reported if it would be one with every error read as no match
NoFalseMatch == res = "T" => Formula
Ends == <>(res # "")
EmitC == IF Emit /\ at = <<1, 1, 1, 1>> /\ ~any /\ res = "" /\ all THEN PrintT(<<"@@TGT", ToJson(tgt)>>) ELSE TRUE
=============================================================================
