------------------------------ MODULE Selector ------------------------------
(***************************************************************************)
(* Attribute selectors: a location path is followed step by step from the  *)
(* document element, keeping a frontier of nodes.  Checked against a       *)
(* per-node statement (a node is selected iff the chain of elements above  *)
(* it fits the path), and MustBePresent.                                   *)
(***************************************************************************)
EXTENDS Xacml, Json
CONSTANTS Emit, Tags, NPaths

Node(n, x, k, kids) == [tag |-> n, text |-> x, at |-> IF k = "" THEN <<>> ELSE <<[n |-> "k", v |-> k]>>, kids |-> kids]
SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Leaf(x) == {Node(n, x, k, <<>>) : n \in Tags, k \in {"", "1"}}
\* root with up to two children, each with at most one child; texts tell the nodes apart
Sub(x, y) == Leaf(x) \cup {Node(n, x, "", <<z>>) : n \in Tags, z \in Leaf(y)}
Docs == {Node("root", "r", "", <<>>)} \cup {Node("root", "r", "", <<p>>) : p \in Sub("t1", "t2")}
        \cup {Node("root", "r", "1", <<p, q>>) : p \in Sub("t1", "t2"), q \in Sub("t3", "")}

Step == [ax : {"child", "desc"}, n : Tags \cup {"*"}, pa : {""}, pv : {""}]
        \cup [ax : {"child", "desc"}, n : {"a", "*"}, pa : {"k"}, pv : {"1"}]
Paths == {p \in SeqsOf(Step, 1, NPaths) : Cardinality({i \in DOMAIN p : p[i].ax = "desc"}) <= 1}

VARIABLES doc, path, left, nodes, mbp, res
vars == <<doc, path, left, nodes, mbp, res>>
Init == /\ doc \in Docs /\ path \in Paths /\ mbp \in BOOLEAN
        /\ left = path /\ nodes = <<doc>> /\ res = ""
Follow == /\ res = "" /\ left # <<>>
          /\ nodes' = FlatSeq([i \in DOMAIN nodes |-> StepFrom(Head(left), nodes[i])])
          /\ left' = Tail(left) /\ UNCHANGED <<doc, path, mbp, res>>
Judge == /\ res = "" /\ left = <<>>
         /\ res' = (IF nodes = <<>> /\ mbp THEN "err" ELSE "bag") /\ UNCHANGED <<doc, path, left, nodes, mbp>>
Done == res # "" /\ UNCHANGED vars
Next == Follow \/ Judge \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Follow \/ Judge)

\* chains of elements below the root, ending at each node
RECURSIVE Chains(_,_)
Chains(nd, above) ==
  UNION {LET c == Append(above, nd.kids[i]) IN {c} \cup Chains(nd.kids[i], c) : i \in DOMAIN nd.kids}
RECURSIVE Fits(_,_)
Fits(p, c) ==
  IF p = <<>> THEN c = <<>>
  ELSE IF c = <<>> THEN FALSE
  ELSE \/ StepHits(p[1], c[1]) /\ Fits(Tail(p), Tail(c))
       \/ p[1].ax = "desc" /\ Fits(p, Tail(c))
Selected == {c \in Chains(doc, <<>>) : Fits(path, c)}
Texts(q) == {q[i].text : i \in DOMAIN q}
Exact == res # "" => /\ Texts(nodes) = {c[Len(c)].text : c \in Selected}
                     /\ Len(nodes) = Cardinality(Selected)
MbpIff == res # "" => (res = "err") = (mbp /\ Selected = {})
Agrees == res = "bag" => EvalSel([k |-> "sel", path |-> path, t |-> "string", mbp |-> mbp], [doc |-> <<doc>>])
                         = Bag("string", [i \in DOMAIN nodes |-> nodes[i].text])
Ends == <>(res # "")
EmitC == /\ IF Emit /\ path = CHOOSE p \in Paths : TRUE THEN IF left = path /\ mbp THEN PrintT(<<"@@DOC", ToJson(doc)>>) ELSE TRUE ELSE TRUE
         /\ IF Emit /\ doc = CHOOSE d \in Docs : TRUE THEN IF left = path /\ mbp THEN PrintT(<<"@@PATH", ToJson(path)>>) ELSE TRUE ELSE TRUE
=============================================================================
