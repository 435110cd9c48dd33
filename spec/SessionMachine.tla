---------------------------- MODULE SessionMachine ----------------------------
(***************************************************************************)
(* All histories of evaluations and edits over two small policies, two     *)
(* requests and two decision points, and (Mode = "par") all interleavings  *)
(* of evaluations that pass through a gate at every rule.                  *)
(***************************************************************************)
EXTENDS Session, Json
CONSTANTS Mode, MaxOps, MaxEdits, Threads, Emit
VARIABLES st, hist, pc, acc, sched

Str == "string"
Des(cat) == [k |-> "des", cat |-> cat, id |-> "urn:a:one", t |-> Str, iss |-> "", mbp |-> FALSE]
Lit(x) == [k |-> "lit", t |-> Str, v |-> x]
Has(cat, x) == [k |-> "app", fam |-> "at-least-one-member-of", ft |-> Str, args |->
                 <<[k |-> "app", fam |-> "bag", ft |-> Str, args |-> <<Lit(x)>>], Des(cat)>>]
Gate(e) == [k |-> "app", fam |-> "custom-echo", ft |-> "", args |-> <<e>>]
Rule(i, eff, c) == [id |-> i, eff |-> eff, tgt |-> <<>>, cond |-> <<c>>]
NoT == [S |-> <<>>, R |-> <<>>, A |-> <<>>, E |-> <<>>]
TgtS(x) == [NoT EXCEPT !.S = << << [fam |-> "equal", ft |-> Str, t |-> Str, v |-> x, src |-> Des("S")] >> >>]

PolA == [k |-> "P", id |-> "urn:verif:A", alg |-> "first-applicable", tgt |-> <<>>,
         rules |-> <<Rule("r1", "Permit", Gate(Has("S", "x"))), Rule("r2", "Deny", Gate(Has("R", "x")))>>]
PolB == [k |-> "PS", id |-> "urn:verif:B", alg |-> "deny-overrides", tgt |-> <<>>, kids |->
         <<[k |-> "P", id |-> "urn:verif:B1", alg |-> "permit-overrides", tgt |-> <<TgtS("y")>>,
            rules |-> <<Rule("r1", "Permit", Gate(Has("S", "y")))>>],
           [k |-> "P", id |-> "urn:verif:B2", alg |-> "deny-overrides", tgt |-> <<>>,
            rules |-> <<Rule("r1", "Deny", Gate(Has("R", "x"))), Rule("r2", "Permit", Gate(Has("S", "x")))>>]>>]
Pols == <<PolA, PolB>>

Attr(q) == [id |-> "urn:a:one", t |-> Str, iss |-> "", vals |-> q]
Rq(s, r) == [S |-> << <<Attr(s)>> >>, R |-> << <<Attr(r)>> >>, A |-> <<>>, E |-> <<>>, pip |-> <<>>, doc |-> <<>>]
Rqs == <<Rq(<<"x">>, <<"z">>), Rq(<<"y">>, <<"x">>)>>

\* ------------------------------------------------------------- histories
Evals == [o : {"eval"}, d : {1, 2}, r : {1, 2}]
ReqEdits == {[o |-> "vals", r |-> r, cat |-> "S", i |-> 1, j |-> 1, vals |-> v] : r \in {1, 2}, v \in {<<>>, <<"x">>, <<"y">>}}
       \cup {[o |-> "cat", r |-> 1, cat |-> "R", q |-> << <<Attr(<<"x">>)>> >>],
             [o |-> "attrs", r |-> 2, cat |-> "R", i |-> 1, attrs |-> <<>>]}
       \cup {[o |-> "pol", d |-> 1, p |-> p] : p \in {1, 2}}
RespEdits(k) == IF st.resps[k] = <<>> THEN {} ELSE
     {[o |-> o, k |-> k, dec |-> d] : o \in {"rdec", "rval"}, d \in {"Permit", "Deny"}}
     \cup {[o |-> "rdrop", k |-> k], [o |-> "rmsg", k |-> k, msg |-> "edited"]}

Edits(h) == Cardinality({i \in DOMAIN h : h[i].o # "eval"})
DoEval == \E op \in Evals : \E dec \in Answer(st, op) :
            /\ st' = [st EXCEPT !.resps = Append(@, << [dec |-> dec, msg |-> "", code |-> "", rid |-> ""] >>)]
            /\ hist' = Append(hist, op)
DoEdit == /\ Edits(hist) < MaxEdits
          /\ Len(hist) < MaxOps - 1       \* an edit at the very end shows nothing
          /\ \E op \in ReqEdits \cup UNION {RespEdits(k) : k \in DOMAIN st.resps} :
               st' = Edited(st, op) /\ hist' = Append(hist, op)

\* ---------------------------------------------------------- interleavings
\* a thread evaluates policy PolA on its request: one gate per rule it tries
Req(t) == ((t - 1) % 2) + 1
Step(t) ==
  /\ pc[t] > 0 /\ pc[t] <= 2
  /\ LET o == RuleVal(PolA.rules[pc[t]], st.rqs[Req(t)]) IN
     \E x \in o : IF x = "NotApplicable" /\ pc[t] < 2
                  THEN pc' = [pc EXCEPT ![t] = @ + 1] /\ acc' = acc
                  ELSE pc' = [pc EXCEPT ![t] = 3] /\ acc' = [acc EXCEPT ![t] = x]
  /\ sched' = Append(sched, t)

Init == /\ st = InitS(Pols, Rqs, <<1, 2>>) /\ hist = <<>> /\ sched = <<>>
        /\ pc = [t \in 1..Threads |-> 1] /\ acc = [t \in 1..Threads |-> ""]
Next == IF Mode = "hist" THEN Len(hist) < MaxOps /\ (DoEval \/ DoEdit) /\ UNCHANGED <<pc, acc, sched>>
        ELSE \E t \in 1..Threads : Step(t) /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_<<st, hist, pc, acc, sched>>

\* evaluation is a function of policy and request: a step-wise evaluation gives
\* the denotational answer whatever is interleaved with it
Isolated == \A t \in 1..Threads : pc[t] = 3 => acc[t] \in PolVal(PolA, st.rqs[Req(t)])
\* an edit of one thing leaves every other as it was
Frame == [][hist' # hist => \A op \in {hist'[Len(hist')]} :
              /\ (op.o \in {"eval", "pol"} \/ op.o \in {"rdec", "rval", "rmsg", "rcode", "rdrop", "radd"} => st'.rqs = st.rqs)
              /\ \A k \in DOMAIN st.resps : st'.resps[k] = st.resps[k] \/ (("k" \in DOMAIN op) /\ op.k = k)]_hist
EmitH == Emit /\ Mode = "hist" /\ Len(hist) = MaxOps => PrintT(<<"@@HIST", ToJson([ops |-> hist])>>)
EmitP == Emit /\ Mode = "par" /\ (\A t \in 1..Threads : pc[t] = 3)
         => PrintT(<<"@@SCHED", ToJson([sched |-> sched, p |-> PolA, rqs |-> [t \in 1..Threads |-> st.rqs[Req(t)]]])>>)
EmitI == Emit /\ Mode = "hist" /\ hist = <<>> => PrintT(<<"@@INIT", ToJson([pols |-> Pols, rqs |-> Rqs])>>)
=============================================================================
