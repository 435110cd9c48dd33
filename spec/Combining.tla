----------------------------- MODULE Combining -----------------------------
(***************************************************************************)
(* The Appendix C combining loops as a state machine: children are         *)
(* evaluated one at a time with any outcome, the loop keeps its flags and  *)
(* may return early.  Checked against the quantified statement of what     *)
(* each algorithm means, for every sequence up to MaxLen.  Every complete  *)
(* sequence is emitted (with its decision) for replay into the real code.  *)
(***************************************************************************)
EXTENDS Xacml, Json
CONSTANTS Kind,       \* "rules" or "policies"
          MaxLen, Emit

VARIABLES alg, seq,   \* outcomes of the whole sequence, fixed once chosen
          pos,        \* children evaluated so far
          flags,      \* what the loop remembers
          dec         \* "" while running
vars == <<alg, seq, pos, flags, dec>>

Kids == IF Kind = "rules"
        THEN {[o |-> "Permit", e |-> "Permit"], [o |-> "Deny", e |-> "Deny"]} \cup
             {[o |-> o, e |-> e] : o \in {"NotApplicable", "Indeterminate"}, e \in Effects}
        ELSE {[o |-> o, e |-> "-"] : o \in Decisions}

RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>}
               ELSE LET s == SeqsUpTo(n - 1) IN s \cup {Append(q, k) : q \in {x \in s : Len(x) = n - 1}, k \in Kids}

NoFlags == [err |-> FALSE, pot |-> FALSE, win |-> FALSE, lose |-> FALSE]

Init == /\ alg \in Algs /\ seq \in SeqsUpTo(MaxLen) /\ pos = 0 /\ flags = NoFlags /\ dec = ""

Over == IF alg = "deny-overrides" THEN "Deny" ELSE "Permit"     \* the overriding decision
Other == IF alg = "deny-overrides" THEN "Permit" ELSE "Deny"

\* one child evaluated
Step ==
  /\ dec = "" /\ pos < Len(seq)
  /\ LET k == seq[pos + 1] IN
     /\ pos' = pos + 1
     /\ IF alg = "first-applicable"
        THEN /\ dec' = (IF k.o = "NotApplicable" THEN "" ELSE k.o) /\ UNCHANGED flags
        ELSE IF k.o = Over THEN dec' = Over /\ UNCHANGED flags
        ELSE IF k.o = "Indeterminate" /\ Kind = "policies" /\ alg = "deny-overrides"
        THEN dec' = "Deny" /\ UNCHANGED flags
        ELSE /\ dec' = ""
             /\ flags' = [flags EXCEPT
                   !.err  = @ \/ k.o = "Indeterminate",
                   !.pot  = @ \/ (k.o = "Indeterminate" /\ Kind = "rules" /\ k.e = Over),
                   !.lose = @ \/ k.o = Other]
  /\ UNCHANGED <<alg, seq>>

\* all children evaluated
Finish ==
  /\ dec = "" /\ pos = Len(seq)
  /\ dec' = IF alg = "first-applicable" THEN "NotApplicable"
            ELSE IF flags.pot THEN "Indeterminate"
            ELSE IF flags.lose THEN Other
            ELSE IF flags.err THEN "Indeterminate" ELSE "NotApplicable"
  /\ UNCHANGED <<alg, seq, pos, flags>>

Done == dec # "" /\ UNCHANGED vars
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Finish)

----------------------------------------------------------------------------
Has(o)     == \E i \in DOMAIN seq : seq[i].o = o
HasErr(e)  == \E i \in DOMAIN seq : seq[i].o = "Indeterminate" /\ seq[i].e = e

\* what the standard means by each algorithm, stated over the whole sequence
Meaning ==
  IF alg = "first-applicable"
  THEN LET app == {i \in DOMAIN seq : seq[i].o # "NotApplicable"} IN
       IF app = {} THEN "NotApplicable" ELSE seq[CHOOSE i \in app : \A j \in app : i <= j].o
  ELSE IF Kind = "rules"
  THEN IF Has(Over) THEN Over
       ELSE IF HasErr(Over) THEN "Indeterminate"
       ELSE IF Has(Other) THEN Other
       ELSE IF Has("Indeterminate") THEN "Indeterminate" ELSE "NotApplicable"
  ELSE IF Has(Over) \/ (alg = "deny-overrides" /\ Has("Indeterminate")) THEN Over
       ELSE IF Has(Other) THEN Other
       ELSE IF Has("Indeterminate") THEN "Indeterminate" ELSE "NotApplicable"

Result == dec # "" => dec = Meaning
Agrees == dec # "" => dec = (IF Kind = "rules" THEN CombineRules(alg, seq) ELSE CombinePolicies(alg, Outs(seq)))

\* the safety core: what may never be granted
Safe == dec # "" =>
  /\ (alg = "deny-overrides" /\ (Has("Deny") \/ HasErr("Deny")) => dec # "Permit")
  /\ (alg = "permit-overrides" /\ (Has("Permit") \/ HasErr("Permit")) => dec # "Deny")
  /\ (dec \in {"Permit", "Deny"} /\ ~(Kind = "policies" /\ alg = "deny-overrides" /\ dec = "Deny") => Has(dec))
  /\ (seq = <<>> => dec = "NotApplicable")
Ends == <>(dec # "")

EmitC == IF Emit /\ dec # "" THEN PrintT(<<"@@SEQ", ToJson([alg |-> alg, seq |-> seq, dec |-> dec])>>) ELSE TRUE
=============================================================================
