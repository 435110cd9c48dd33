---------------------------- MODULE TargetProof ----------------------------
(***************************************************************************)
(* The target visitor of TargetMachine.tla, for targets of every shape and *)
(* size.  Proved with TLAPS: a match is only reported where the target     *)
(* matches with every error read as no match, a non-match only where it    *)
(* would not match even with every error read as a match, an error only    *)
(* where there is one.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLAPS
CONSTANT tgt    \* sections of alternatives of matches of comparison outcomes
Outcomes == {"T", "F", "E"}
ASSUME Shape == tgt \in Seq(Seq(Seq(Seq(Outcomes))))

VARIABLES s, a, m, v, any, all, some, ok, res
vars == <<s, a, m, v, any, all, some, ok, res>>

Init == /\ s = 1 /\ a = 1 /\ m = 1 /\ v = 1
        /\ any = FALSE /\ all = TRUE /\ some = FALSE /\ ok = TRUE /\ res = ""

InSect  == s <= Len(tgt)
InAlt   == InSect /\ a <= Len(tgt[s])
InMatch == InAlt /\ m <= Len(tgt[s][a])
InValue == InMatch /\ v <= Len(tgt[s][a][m])

Compare ==
  /\ res = "" /\ InValue
  /\ IF tgt[s][a][m][v] = "E" THEN res' = "E" /\ UNCHANGED <<v, any>>
     ELSE any' = (any \/ tgt[s][a][m][v] = "T") /\ v' = v + 1 /\ res' = ""
  /\ UNCHANGED <<s, a, m, all, some, ok>>
EndMatch ==
  /\ res = "" /\ InMatch /\ (~InValue \/ any)
  /\ all' = (all /\ any) /\ any' = FALSE /\ m' = m + 1 /\ v' = 1 /\ UNCHANGED <<s, a, some, ok, res>>
EndAlt ==
  /\ res = "" /\ InAlt /\ v = 1 /\ ~any /\ (~InMatch \/ ~all)
  /\ some' = (some \/ all) /\ all' = TRUE /\ a' = a + 1 /\ m' = 1 /\ UNCHANGED <<s, v, any, ok, res>>
EndSect ==
  /\ res = "" /\ InSect /\ m = 1 /\ v = 1 /\ all /\ ~any /\ (~InAlt \/ some)
  /\ ok' = (ok /\ (some \/ tgt[s] = <<>>)) /\ some' = FALSE /\ s' = s + 1 /\ a' = 1 /\ UNCHANGED <<m, v, any, all, res>>
End ==
  /\ res = "" /\ a = 1 /\ m = 1 /\ v = 1 /\ ~some /\ all /\ ~any /\ (~InSect \/ ~ok)
  /\ res' = (IF ok THEN "T" ELSE "F") /\ UNCHANGED <<s, a, m, v, any, all, some, ok>>
Next == Compare \/ EndMatch \/ EndAlt \/ EndSect \/ End
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the target with every error read as no match, ...
MatchT(b) == \E x \in 1..Len(b) : b[x] = "T"
AltT(q)   == \A k \in 1..Len(q) : MatchT(q[k])
SectT(q)  == Len(q) = 0 \/ \E j \in 1..Len(q) : AltT(q[j])
Surely    == \A i \in 1..Len(tgt) : SectT(tgt[i])
\* ... and with every error read as a match
MatchP(b) == \E x \in 1..Len(b) : b[x] # "F"
AltP(q)   == \A k \in 1..Len(q) : MatchP(q[k])
SectP(q)  == Len(q) = 0 \/ \E j \in 1..Len(q) : AltP(q[j])
Possibly  == \A i \in 1..Len(tgt) : SectP(tgt[i])
HasError  == \E i \in 1..Len(tgt) : \E j \in 1..Len(tgt[i]) : \E k \in 1..Len(tgt[i][j]) :
               \E x \in 1..Len(tgt[i][j][k]) : tgt[i][j][k][x] = "E"

Right == /\ res = "T" => Surely
         /\ res = "F" => ~Possibly
         /\ res = "E" => HasError

----------------------------------------------------------------------------
TypeOK == /\ s \in Nat \ {0} /\ a \in Nat \ {0} /\ m \in Nat \ {0} /\ v \in Nat \ {0}
          /\ any \in BOOLEAN /\ all \in BOOLEAN /\ some \in BOOLEAN /\ ok \in BOOLEAN
          /\ res \in {"", "T", "F", "E"}
          /\ s <= Len(tgt) + 1
          /\ (a > 1 => InSect /\ a <= Len(tgt[s]) + 1)
          /\ (m > 1 => InAlt /\ m <= Len(tgt[s][a]) + 1)
          /\ (v > 1 => InMatch /\ v <= Len(tgt[s][a][m]) + 1)
InvV == IF any THEN v > 1 /\ \E x \in 1..(v - 1) : tgt[s][a][m][x] = "T"
               ELSE \A x \in 1..(v - 1) : tgt[s][a][m][x] = "F"
InvM == IF all THEN \A k \in 1..(m - 1) : MatchT(tgt[s][a][k])
               ELSE m > 1 /\ \E k \in 1..(m - 1) : ~MatchP(tgt[s][a][k])
InvA == IF some THEN a > 1 /\ \E j \in 1..(a - 1) : AltT(tgt[s][j])
                ELSE \A j \in 1..(a - 1) : ~AltP(tgt[s][j])
InvS == IF ok THEN \A i \in 1..(s - 1) : SectT(tgt[i])
              ELSE s > 1 /\ \E i \in 1..(s - 1) : ~SectP(tgt[i])
Inv == TypeOK /\ InvV /\ InvM /\ InvA /\ InvS /\ Right

LEMMA Shapes ==
  /\ Len(tgt) \in Nat
  /\ \A i \in 1..Len(tgt) : /\ tgt[i] \in Seq(Seq(Seq(Outcomes))) /\ Len(tgt[i]) \in Nat
       /\ \A j \in 1..Len(tgt[i]) : /\ tgt[i][j] \in Seq(Seq(Outcomes)) /\ Len(tgt[i][j]) \in Nat
            /\ \A k \in 1..Len(tgt[i][j]) : /\ tgt[i][j][k] \in Seq(Outcomes) /\ Len(tgt[i][j][k]) \in Nat
                 /\ \A x \in 1..Len(tgt[i][j][k]) : tgt[i][j][k][x] \in Outcomes
  BY Shape

THEOREM Correct == Spec => []Inv
<1>1. Init => Inv
  BY Shapes DEF Init, Inv, TypeOK, InvV, InvM, InvA, InvS, Right, InSect
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>0. UNCHANGED vars => Inv'
    BY DEF vars, Inv, TypeOK, InvV, InvM, InvA, InvS, Right, InSect, InAlt, InMatch
  <2>1. CASE Compare
    <3>1. s \in 1..Len(tgt) /\ a \in 1..Len(tgt[s]) /\ m \in 1..Len(tgt[s][a]) /\ v \in 1..Len(tgt[s][a][m])
      BY <2>1, Shapes DEF Compare, InValue, InMatch, InAlt, InSect, Inv, TypeOK
    <3>2. CASE tgt[s][a][m][v] = "E"
      <4>1. HasError
        BY <3>1, <3>2 DEF HasError
      <4> QED
        BY <2>1, <3>2, <4>1 DEF Compare, Inv, TypeOK, InvV, InvM, InvA, InvS, Right, InSect, InAlt, InMatch
    <3>3. CASE tgt[s][a][m][v] # "E"
      <4>1. TypeOK'
        BY <2>1, <3>1, <3>3, Shapes DEF Compare, Inv, TypeOK, InSect, InAlt, InMatch, InValue
      <4>2. InvV'
        <5>1. CASE any'
          BY <2>1, <3>1, <3>3, <5>1, Shapes DEF Compare, Inv, TypeOK, InvV
        <5>2. CASE ~any'
          <6>1. tgt[s][a][m][v] = "F"
            BY <2>1, <3>1, <3>3, <5>2, Shapes DEF Compare, Outcomes
          <6> QED
            BY <2>1, <3>1, <3>3, <5>2, <6>1, Shapes DEF Compare, Inv, TypeOK, InvV
        <5> QED
          BY <5>1, <5>2
      <4>3. InvM' /\ InvA' /\ InvS' /\ Right'
        BY <2>1, <3>3 DEF Compare, Inv, InvM, InvA, InvS, Right
      <4> QED
        BY <4>1, <4>2, <4>3 DEF Inv
    <3> QED
      BY <3>2, <3>3
  <2>2. CASE EndMatch
    <3>1. s \in 1..Len(tgt) /\ a \in 1..Len(tgt[s]) /\ m \in 1..Len(tgt[s][a])
      BY <2>2, Shapes DEF EndMatch, InMatch, InAlt, InSect, Inv, TypeOK
    <3>2. any => MatchT(tgt[s][a][m])
      <4> SUFFICES ASSUME any PROVE MatchT(tgt[s][a][m])
        OBVIOUS
      <4>1. PICK x \in 1..(v - 1) : tgt[s][a][m][x] = "T"
        BY DEF Inv, InvV
      <4>2. x \in 1..Len(tgt[s][a][m])
        BY <3>1, Shapes DEF Inv, TypeOK, InvV
      <4> QED
        BY <4>1, <4>2 DEF MatchT
    <3>3. ~any => ~MatchP(tgt[s][a][m])
      <4> SUFFICES ASSUME ~any PROVE ~MatchP(tgt[s][a][m])
        OBVIOUS
      <4>1. v > Len(tgt[s][a][m])
        BY <2>2, <3>1, Shapes DEF EndMatch, InValue, Inv, TypeOK
      <4> QED
        BY <3>1, <4>1, Shapes DEF Inv, TypeOK, InvV, MatchP
    <3>4. TypeOK'
      BY <2>2, <3>1, Shapes DEF EndMatch, Inv, TypeOK, InSect, InAlt, InMatch
    <3>5. InvM'
      <4>1. CASE all /\ any
        BY <2>2, <3>1, <3>2, <4>1, Shapes DEF EndMatch, Inv, TypeOK, InvM
      <4>2. CASE ~all
        <5>1. PICK k \in 1..(m - 1) : ~MatchP(tgt[s][a][k])
          BY <4>2 DEF Inv, InvM
        <5>2. k \in 1..((m + 1) - 1) /\ m + 1 > 1
          BY <3>1, <5>1, Shapes
        <5> QED
          BY <2>2, <4>2, <5>1, <5>2 DEF EndMatch, InvM
      <4>3. CASE ~any
        <5>1. m \in 1..((m + 1) - 1) /\ m + 1 > 1
          BY <3>1, Shapes
        <5> QED
          BY <2>2, <3>3, <4>3, <5>1 DEF EndMatch, InvM
      <4> QED
        BY <4>1, <4>2, <4>3
    <3>6. InvV' /\ InvA' /\ InvS' /\ Right'
      BY <2>2 DEF EndMatch, Inv, InvV, InvA, InvS, Right
    <3> QED
      BY <3>4, <3>5, <3>6 DEF Inv
  <2>3. CASE EndAlt
    <3>1. s \in 1..Len(tgt) /\ a \in 1..Len(tgt[s])
      BY <2>3, Shapes DEF EndAlt, InAlt, InSect, Inv, TypeOK
    <3>2. all => AltT(tgt[s][a])
      <4> SUFFICES ASSUME all PROVE AltT(tgt[s][a])
        OBVIOUS
      <4>1. m > Len(tgt[s][a])
        BY <2>3, <3>1, Shapes DEF EndAlt, InMatch, InAlt, InSect, Inv, TypeOK
      <4> QED
        BY <3>1, <4>1, Shapes DEF Inv, TypeOK, InvM, AltT
    <3>3. ~all => ~AltP(tgt[s][a])
      <4> SUFFICES ASSUME ~all PROVE ~AltP(tgt[s][a])
        OBVIOUS
      <4>1. PICK k \in 1..(m - 1) : ~MatchP(tgt[s][a][k])
        BY DEF Inv, InvM
      <4>2. k \in 1..Len(tgt[s][a])
        BY <3>1, Shapes DEF Inv, TypeOK, InvM
      <4> QED
        BY <4>1, <4>2 DEF AltP
    <3>4. TypeOK'
      BY <2>3, <3>1, Shapes DEF EndAlt, Inv, TypeOK, InSect, InAlt, InMatch
    <3>5. InvA'
      <4>1. CASE some
        <5>1. PICK j \in 1..(a - 1) : AltT(tgt[s][j])
          BY <4>1 DEF Inv, InvA
        <5>2. j \in 1..((a + 1) - 1) /\ a + 1 > 1
          BY <3>1, <5>1, Shapes
        <5> QED
          BY <2>3, <4>1, <5>1, <5>2 DEF EndAlt, InvA
      <4>2. CASE all
        <5>1. a \in 1..((a + 1) - 1) /\ a + 1 > 1
          BY <3>1, Shapes
        <5> QED
          BY <2>3, <3>2, <4>2, <5>1 DEF EndAlt, InvA
      <4>3. CASE ~some /\ ~all
        BY <2>3, <3>1, <3>3, <4>3, Shapes DEF EndAlt, Inv, TypeOK, InvA
      <4> QED
        BY <4>1, <4>2, <4>3
    <3>6. InvV' /\ InvM' /\ InvS' /\ Right'
      BY <2>3 DEF EndAlt, Inv, InvV, InvM, InvS, Right
    <3> QED
      BY <3>4, <3>5, <3>6 DEF Inv
  <2>4. CASE EndSect
    <3>1. s \in 1..Len(tgt)
      BY <2>4, Shapes DEF EndSect, InSect, Inv, TypeOK
    <3>2. some => SectT(tgt[s])
      <4> SUFFICES ASSUME some PROVE SectT(tgt[s])
        OBVIOUS
      <4>1. PICK j \in 1..(a - 1) : AltT(tgt[s][j])
        BY DEF Inv, InvA
      <4>2. j \in 1..Len(tgt[s])
        BY <3>1, Shapes DEF Inv, TypeOK, InvA
      <4> QED
        BY <4>1, <4>2 DEF SectT
    <3>3. tgt[s] = <<>> => SectT(tgt[s])
      BY DEF SectT
    <3>4. ~some /\ tgt[s] # <<>> => ~SectP(tgt[s])
      <4> SUFFICES ASSUME ~some, tgt[s] # <<>> PROVE ~SectP(tgt[s])
        OBVIOUS
      <4>1. a > Len(tgt[s])
        BY <2>4, <3>1, Shapes DEF EndSect, InAlt, InSect, Inv, TypeOK
      <4>2. Len(tgt[s]) # 0
        BY <3>1, Shapes
      <4> QED
        BY <3>1, <4>1, <4>2, Shapes DEF Inv, TypeOK, InvA, SectP
    <3>5. TypeOK'
      BY <2>4, <3>1, Shapes DEF EndSect, Inv, TypeOK, InSect, InAlt, InMatch
    <3>6. InvS'
      <4>1. CASE ~ok
        <5>1. PICK i \in 1..(s - 1) : ~SectP(tgt[i])
          BY <4>1 DEF Inv, InvS
        <5>2. i \in 1..((s + 1) - 1) /\ s + 1 > 1
          BY <3>1, <5>1, Shapes
        <5> QED
          BY <2>4, <4>1, <5>1, <5>2 DEF EndSect, InvS
      <4>2. CASE ~(some \/ tgt[s] = <<>>)
        <5>1. s \in 1..((s + 1) - 1) /\ s + 1 > 1
          BY <3>1, Shapes
        <5> QED
          BY <2>4, <3>4, <4>2, <5>1 DEF EndSect, InvS
      <4>3. CASE ok /\ (some \/ tgt[s] = <<>>)
        BY <2>4, <3>1, <3>2, <3>3, <4>3, Shapes DEF EndSect, Inv, TypeOK, InvS
      <4> QED
        BY <4>1, <4>2, <4>3
    <3>7. InvV' /\ InvM' /\ InvA' /\ Right'
      BY <2>4 DEF EndSect, Inv, InvV, InvM, InvA, Right
    <3> QED
      BY <3>5, <3>6, <3>7 DEF Inv
  <2>5. CASE End
    <3>1. TypeOK' /\ InvV' /\ InvM' /\ InvA' /\ InvS'
      BY <2>5 DEF End, Inv, TypeOK, InvV, InvM, InvA, InvS, InSect, InAlt, InMatch
    <3>2. ok => Surely
      BY <2>5, Shapes DEF End, Inv, TypeOK, InvS, InSect, Surely
    <3>3. ~ok => ~Possibly
      <4> SUFFICES ASSUME ~ok PROVE ~Possibly
        OBVIOUS
      <4>1. PICK i \in 1..(s - 1) : ~SectP(tgt[i])
        BY DEF Inv, InvS
      <4>2. i \in 1..Len(tgt)
        BY <4>1, Shapes DEF Inv, TypeOK
      <4> QED
        BY <4>1, <4>2 DEF Possibly
    <3>4. Right'
      BY <2>5, <3>2, <3>3 DEF End, Right
    <3> QED
      BY <3>1, <3>4 DEF Inv
  <2> QED
    BY <2>0, <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

THEOREM Spec => []Right
  BY Correct, PTL DEF Inv
=============================================================================
