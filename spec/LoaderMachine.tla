---------------------------- MODULE LoaderMachine ----------------------------
(***************************************************************************)
(* The loader as a machine with an explicit stack: open an element, close  *)
(* it (which defines its id), meet a reference, fetch a document, return   *)
(* from it.  Run on every bounded document graph and compared with what a  *)
(* loaded tree must be.                                                    *)
(***************************************************************************)
EXTENDS PolicyLoad, Json
CONSTANTS Emit, MaxKids, Shape

Ref(k, id) == Leaf(k, id, "")
P(id, m) == Leaf("P", id, m)
S(id, m, kids) == [k |-> "PS", id |-> id, m |-> m, kids |-> kids]
SeqsOf(U, lo, hi) == UNION {[1..n -> U] : n \in lo..hi}

TopKids == {P("x", "tx"), P("u", "tu"), Ref("rP", "u"), Ref("rPS", "u"), Ref("rP", "x"), Ref("rPS", "w"), Ref("rP", "t"), Ref("rPS", "t"),
            S("u", "tsu", <<>>), S("n", "tn", <<P("x", "nx")>>), S("n", "tn2", <<Ref("rP", "u"), P("w", "nw")>>)}
UDocs == {<<>>, <<P("u", "du")>>, <<P("q", "dq")>>, <<S("u", "dsu", <<>>)>>, <<S("u", "dsu2", <<Ref("rPS", "w")>>)>>,
          <<S("q", "dqs", <<P("u", "dqu"), Ref("rP", "x")>>)>>, <<S("u", "dsu3", <<Ref("rPS", "t")>>)>>,
          <<S("u", "dsu4", <<P("x", "dx")>>)>>}
WDocs == {<<>>, <<S("w", "ew", <<Ref("rP", "u")>>)>>, <<S("w", "ew2", <<Ref("rPS", "u")>>)>>, <<S("w", "ew3", <<P("x", "ex")>>)>>,
          <<P("w", "ewp")>>}

Graphs == {[docs |-> <<[u |-> "t", node |-> S("t", "top", ks)]>>
                     \o (IF du = <<>> THEN <<>> ELSE <<[u |-> "u", node |-> du[1]]>>)
                     \o (IF dw = <<>> THEN <<>> ELSE <<[u |-> "w", node |-> dw[1]]>>),
            top |-> "t", finder |-> "dict", base |-> ""] :
              ks \in SeqsOf(TopKids, 0, MaxKids), du \in UDocs, dw \in WDocs}

VARIABLES ld, stack, defs, res, reads
vars == <<ld, stack, defs, res, reads>>
(* stack of frames [node, i, kids, url, want]: url non-empty for the root   *)
(* element of a document; want the reference that made it be fetched        *)
Frame(nd, u, want) == [node |-> nd, i |-> 1, kids |-> <<>>, url |-> u, want |-> want]
NoRef == Leaf("no", "", "")

Init == /\ ld \in Graphs
        /\ stack = <<Frame(ld.docs[1].node, "t", NoRef)>>
        /\ defs = Empty
        /\ res = "run"
        /\ reads = 1

Top == stack[1]
Rest == Tail(stack)
Open(u) == \E i \in DOMAIN stack : stack[i].url = u

Stop(r) == res' = r /\ UNCHANGED <<ld, stack, defs, reads>>
AddKid(t) == [Top EXCEPT !.kids = Append(@, t), !.i = @ + 1]

StepChild ==
  /\ res = "run" /\ Top.i <= Len(Top.node.kids)
  /\ LET h == Top.node.kids[Top.i]  kind == IF h.k = "rP" THEN "P" ELSE "PS" IN
     IF h.k \in {"P", "PS"}
     THEN stack' = <<Frame(h, "", NoRef)>> \o stack /\ UNCHANGED <<ld, defs, res, reads>>
     ELSE IF Has(defs[kind], h.id)
     THEN stack' = <<AddKid(Get(defs[kind], h.id))>> \o Rest /\ UNCHANGED <<ld, defs, res, reads>>
     ELSE LET ds == DocAt(ld, h.id) IN
          IF ds = {} \/ Open(h.id) THEN Stop("error")
          ELSE /\ stack' = <<Frame(ld.docs[CHOOSE i \in ds : TRUE].node, h.id, h)>> \o stack
               /\ reads' = reads + 1
               /\ UNCHANGED <<ld, defs, res>>

StepClose ==
  /\ res = "run" /\ Top.i > Len(Top.node.kids)
  /\ LET t == [Top.node EXCEPT !.kids = Top.kids]  k == t.k
         d == [defs EXCEPT ![k] = Append(@, t)]
         w == Top.want
         kind == IF w.k = "rP" THEN "P" ELSE "PS" IN
     IF Has(defs[k], t.id) THEN Stop("error")
     ELSE IF Len(stack) = 1
     THEN res' = "loaded" /\ defs' = d /\ UNCHANGED <<ld, stack, reads>>
     ELSE LET under == [stack[2] EXCEPT !.i = @ + 1] IN
       IF w.k = "no"
       THEN /\ stack' = <<[under EXCEPT !.kids = Append(@, t)]>> \o Tail(Rest)
            /\ defs' = d /\ UNCHANGED <<ld, res, reads>>
       ELSE IF ~Has(d[kind], w.id) THEN Stop("error")
       ELSE /\ stack' = <<[under EXCEPT !.kids = Append(@, Get(d[kind], w.id))]>> \o Tail(Rest)
            /\ defs' = d /\ UNCHANGED <<ld, res, reads>>

Next == StepChild \/ StepClose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Loaded == Get(defs.PS, "t")
RECURSIVE NoRefs(_)
NoRefs(t) == t.k \in {"P", "PS"} /\ \A i \in DOMAIN t.kids : NoRefs(t.kids[i])
\* position by position, the loaded tree has what the document asks for
RECURSIVE Fits(_,_)
Fits(nd, t) ==
  IF nd.k = "rP" THEN t.k = "P" /\ t.id = nd.id
  ELSE IF nd.k = "rPS" THEN t.k = "PS" /\ t.id = nd.id
  ELSE t.k = nd.k /\ t.id = nd.id /\ t.m = nd.m /\ Len(t.kids) = Len(nd.kids)
       /\ \A i \in DOMAIN nd.kids : Fits(nd.kids[i], t.kids[i])
Unique(q) == \A i, j \in DOMAIN q : q[i].id = q[j].id => i = j

Faithful == res = "loaded" => /\ NoRefs(Loaded) /\ Fits(ld.docs[1].node, Loaded)
                              /\ \A k \in {"P", "PS"} : Unique(defs[k])
Agrees == res # "run" => LET r == LoadOf(ld) IN
            /\ r.ok = (res = "loaded")
            /\ res = "loaded" => r.tree = Loaded /\ r.st = defs
Bounded == reads <= 4
Ends == <>(res # "run")
EmitC == IF Emit /\ res # "run" THEN PrintT(<<"@@GRAPH", ToJson([ld |-> ld, ok |-> (res = "loaded")])>>) ELSE TRUE
=============================================================================
