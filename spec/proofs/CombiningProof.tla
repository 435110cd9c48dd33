-------------------------- MODULE CombiningProof --------------------------
(***************************************************************************)
(* The combining loops of Combining.tla, for sequences of every length:    *)
(* the loop's result is what the standard means, proved with TLAPS.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLAPS
CONSTANTS Kind,       \* "rules" or "policies"
          alg, seq    \* any algorithm, any sequence of outcomes

Decisions == {"Permit", "Deny", "NotApplicable", "Indeterminate"}
Effects   == {"Permit", "Deny"}
Algs      == {"deny-overrides", "permit-overrides", "first-applicable"}
ASSUME Assumed ==
  /\ Kind \in {"rules", "policies"}
  /\ alg \in Algs
  /\ seq \in Seq([o : Decisions, e : Effects])

VARIABLES pos, err, pot, lose, dec
vars == <<pos, err, pot, lose, dec>>

Over  == IF alg = "deny-overrides" THEN "Deny" ELSE "Permit"
Other == IF alg = "deny-overrides" THEN "Permit" ELSE "Deny"

Init == pos = 0 /\ err = FALSE /\ pot = FALSE /\ lose = FALSE /\ dec = ""

Step ==
  /\ dec = "" /\ pos < Len(seq)
  /\ pos' = pos + 1
  /\ IF alg = "first-applicable"
     THEN /\ dec' = (IF seq[pos + 1].o = "NotApplicable" THEN "" ELSE seq[pos + 1].o)
          /\ UNCHANGED <<err, pot, lose>>
     ELSE IF seq[pos + 1].o = Over THEN dec' = Over /\ UNCHANGED <<err, pot, lose>>
     ELSE IF seq[pos + 1].o = "Indeterminate" /\ Kind = "policies" /\ alg = "deny-overrides"
     THEN dec' = "Deny" /\ UNCHANGED <<err, pot, lose>>
     ELSE /\ dec' = ""
          /\ err'  = (err \/ seq[pos + 1].o = "Indeterminate")
          /\ pot'  = (pot \/ (seq[pos + 1].o = "Indeterminate" /\ Kind = "rules" /\ seq[pos + 1].e = Over))
          /\ lose' = (lose \/ seq[pos + 1].o = Other)

Finish ==
  /\ dec = "" /\ pos = Len(seq)
  /\ dec' = IF alg = "first-applicable" THEN "NotApplicable"
            ELSE IF pot THEN "Indeterminate"
            ELSE IF lose THEN Other
            ELSE IF err THEN "Indeterminate" ELSE "NotApplicable"
  /\ UNCHANGED <<pos, err, pot, lose>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Dom        == 1..Len(seq)
Has(o)     == \E i \in Dom : seq[i].o = o
HasErr(e)  == \E i \in Dom : seq[i].o = "Indeterminate" /\ seq[i].e = e
FirstIs(d) == \E i \in Dom : seq[i].o = d /\ \A j \in 1..(i - 1) : seq[j].o = "NotApplicable"

\* what the standard means by each algorithm
IsMeaning(d) ==
  IF alg = "first-applicable"
  THEN IF d = "NotApplicable" THEN \A i \in Dom : seq[i].o = "NotApplicable" ELSE FirstIs(d)
  ELSE IF Kind = "rules"
  THEN d = (IF Has(Over) THEN Over
            ELSE IF HasErr(Over) THEN "Indeterminate"
            ELSE IF Has(Other) THEN Other
            ELSE IF Has("Indeterminate") THEN "Indeterminate" ELSE "NotApplicable")
  ELSE d = (IF Has(Over) \/ (alg = "deny-overrides" /\ Has("Indeterminate")) THEN Over
            ELSE IF Has(Other) THEN Other
            ELSE IF Has("Indeterminate") THEN "Indeterminate" ELSE "NotApplicable")

Result == dec # "" => IsMeaning(dec)

Safe == dec # "" =>
  /\ (alg = "deny-overrides" /\ (Has("Deny") \/ (Kind = "rules" /\ HasErr("Deny"))) => dec # "Permit")
  /\ (alg = "permit-overrides" /\ (Has("Permit") \/ (Kind = "rules" /\ HasErr("Permit"))) => dec # "Deny")

----------------------------------------------------------------------------
Seen == 1..pos
TypeOK ==
  /\ pos \in 0..Len(seq)
  /\ err \in BOOLEAN /\ pot \in BOOLEAN /\ lose \in BOOLEAN
  /\ dec \in Decisions \cup {""}

\* while the loop runs, its flags say what has been seen so far
Running ==
  dec = "" =>
    IF alg = "first-applicable" THEN \A i \in Seen : seq[i].o = "NotApplicable"
    ELSE /\ \A i \in Seen : seq[i].o # Over
         /\ (Kind = "policies" /\ alg = "deny-overrides") => \A i \in Seen : seq[i].o # "Indeterminate"
         /\ err <=> \E i \in Seen : seq[i].o = "Indeterminate"
         /\ pot <=> (Kind = "rules" /\ \E i \in Seen : seq[i].o = "Indeterminate" /\ seq[i].e = Over)
         /\ lose <=> \E i \in Seen : seq[i].o = Other

Inv == TypeOK /\ Running /\ Result

LEMMA Elems == \A i \in Dom : seq[i].o \in Decisions /\ seq[i].e \in Effects
  BY Assumed DEF Dom

LEMMA Length == Len(seq) \in Nat
  BY Assumed

THEOREM Correct == Spec => []Inv
<1>1. Init => Inv
  BY Length DEF Init, Inv, TypeOK, Running, Result, Seen
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF vars, Inv, TypeOK, Running, Result, Seen, IsMeaning
  <2>2. CASE Step
    <3>1. pos + 1 \in Dom
      BY <2>2, Length DEF Step, Inv, TypeOK, Dom
    <3>2. seq[pos + 1].o \in Decisions /\ seq[pos + 1].e \in Effects
      BY <3>1, Elems
    <3>3. TypeOK'
      BY <2>2, <3>2, Length, Assumed DEF Step, Inv, TypeOK, Decisions, Over
    <3>4. Seen' = Seen \cup {pos + 1}
      BY <2>2, Length DEF Step, Seen, Inv, TypeOK
    <3>5. Running'
      <4>1. CASE alg = "first-applicable"
        BY <2>2, <3>2, <3>4, <4>1 DEF Step, Inv, TypeOK, Running, Decisions
      <4>2. CASE alg # "first-applicable"
        <5>1. (\A i \in Seen : seq[i].o # Over)' \/ dec' # ""
          BY <2>2, <3>2, <3>4, <4>2 DEF Step, Inv, Running, Over
        <5>2. dec' = "" => /\ (err <=> \E i \in Seen : seq[i].o = "Indeterminate")'
                           /\ (pot <=> (Kind = "rules" /\ \E i \in Seen : seq[i].o = "Indeterminate" /\ seq[i].e = Over))'
                           /\ (lose <=> \E i \in Seen : seq[i].o = Other)'
          BY <2>2, <3>2, <3>4, <4>2 DEF Step, Inv, Running, Over
        <5>3. dec' = "" => (Kind = "policies" /\ alg = "deny-overrides") => (\A i \in Seen : seq[i].o # "Indeterminate")'
          BY <2>2, <3>2, <3>4, <4>2 DEF Step, Inv, Running, Over
        <5> QED
          BY <4>2, <5>1, <5>2, <5>3 DEF Running
      <4> QED
        BY <4>1, <4>2
    <3>6. Result'
      <4>0. SUFFICES ASSUME dec' # "" PROVE IsMeaning(dec')
        BY DEF Result, IsMeaning
      <4>1. CASE alg = "first-applicable"
        <5>1. dec' = seq[pos + 1].o /\ dec' # "NotApplicable"
          BY <2>2, <4>0, <4>1 DEF Step
        <5>2. \A j \in 1..pos : seq[j].o = "NotApplicable"
          BY <2>2, <4>1 DEF Step, Inv, Running, Seen
        <5>3. (pos + 1) - 1 = pos
          BY DEF Inv, TypeOK
        <5>4. FirstIs(dec')
          BY <5>1, <5>2, <5>3, <3>1 DEF FirstIs
        <5> QED
          BY <5>1, <5>4, <4>1 DEF IsMeaning
      <4>2. CASE alg # "first-applicable" /\ seq[pos + 1].o = Over
        <5>1. Has(Over) /\ dec' = Over
          BY <2>2, <4>2, <3>1 DEF Step, Has
        <5> QED
          BY <5>1, <4>2, Assumed DEF IsMeaning
      <4>3. CASE alg # "first-applicable" /\ seq[pos + 1].o # Over
        <5>1. Kind = "policies" /\ alg = "deny-overrides" /\ seq[pos + 1].o = "Indeterminate" /\ dec' = "Deny"
          BY <2>2, <4>0, <4>3 DEF Step
        <5>2. Has("Indeterminate")
          BY <5>1, <3>1 DEF Has
        <5> QED
          BY <5>1, <5>2 DEF IsMeaning, Over
      <4> QED
        BY <4>1, <4>2, <4>3
    <3> QED
      BY <3>3, <3>5, <3>6 DEF Inv
  <2>3. CASE Finish
    <3>1. pos = Len(seq) /\ Seen = Dom /\ dec = ""
      BY <2>3 DEF Finish, Seen, Dom
    <3>2. TypeOK' /\ dec' # ""
      BY <2>3, Assumed DEF Finish, Inv, TypeOK, Decisions, Other
    <3>3. Running'
      BY <3>2 DEF Running
    <3>4. IsMeaning(dec')
      <4>1. CASE alg = "first-applicable"
        BY <2>3, <3>1, <4>1 DEF Finish, Inv, Running, IsMeaning
      <4>2. CASE alg # "first-applicable" /\ Kind = "rules"
        BY <2>3, <3>1, <4>2 DEF Finish, Inv, Running, IsMeaning, Has, HasErr
      <4>3. CASE alg # "first-applicable" /\ Kind = "policies"
        BY <2>3, <3>1, <4>3, Assumed DEF Finish, Inv, Running, IsMeaning, Has, HasErr, Over, Algs
      <4> QED
        BY <4>1, <4>2, <4>3, Assumed
    <3>5. Result'
      BY <3>4 DEF Result, IsMeaning
    <3> QED
      BY <3>2, <3>3, <3>5 DEF Inv
  <2> QED
    BY <2>1, <2>2, <2>3 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

THEOREM Safety == Spec => []Safe
<1>1. Inv => Safe
  <2> SUFFICES ASSUME Inv, dec # "" PROVE
        /\ (alg = "deny-overrides" /\ (Has("Deny") \/ (Kind = "rules" /\ HasErr("Deny"))) => dec # "Permit")
        /\ (alg = "permit-overrides" /\ (Has("Permit") \/ (Kind = "rules" /\ HasErr("Permit"))) => dec # "Deny")
    BY DEF Safe
  <2>1. IsMeaning(dec)
    BY DEF Inv, Result
  <2> QED
    BY <2>1, Assumed DEF IsMeaning, Over, Other
<1> QED
  BY <1>1, Correct, PTL
=============================================================================
