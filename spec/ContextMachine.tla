--------------------------- MODULE ContextMachine ---------------------------
(***************************************************************************)
(* Two machines over request and response contexts.                        *)
(* Docs: every document one edit away from the base documents.             *)
(* Hist: every history of up to Depth edits and reloads of small objects,  *)
(* for which writing and reading back must give the object again.          *)
(***************************************************************************)
EXTENDS ContextDoc, TreeEdits, Json, IOUtils
CONSTANTS Docs, Depth
VARIABLES c, tr, doc, n
vars == <<c, tr, doc, n>>

Bases == ndJsonDeserialize(IOEnv.BASES)
Starts == ndJsonDeserialize(IOEnv.STARTS)
None == [tag |-> ""]

Init == /\ n = 0
        /\ IF Docs THEN doc \in RangeOf(Bases) /\ c = None /\ tr = <<>>
           ELSE doc = None /\ c \in RangeOf(Starts) /\ tr = <<[o |-> "start", c |-> c]>>

ST1 == X \o "string"
NewAttr == [id |-> "urn:n", dt |-> X \o "anyURI", iss |-> <<>>, vals |-> <<"v", " w ">>]
Content1 == ElX("ResourceContent", <<A("k", "v")>>, "t", <<ElX("b", <<>>, "", <<>>)>>)
Holders == {[c |-> "S", i |-> i] : i \in DOMAIN c.S} \cup {[c |-> "R", i |-> i] : i \in DOMAIN c.R}
           \cup {[c |-> "A", i |-> i] : i \in DOMAIN c.A} \cup {[c |-> "E", i |-> i] : i \in DOMAIN c.E}
\* the first and last attribute of a holder
Some(h) == LET m == Len(HolderGet(c, h)) IN IF m = 0 THEN {} ELSE {1, m}

RequestOps ==
  {[o |-> "addattr", h |-> h, a |-> NewAttr] : h \in Holders}
  \cup UNION {UNION {
     {[o |-> "delattr", h |-> h, i |-> i], [o |-> "setid", h |-> h, i |-> i, v |-> "urn:q"],
      [o |-> "setiss", h |-> h, i |-> i, v |-> "me"], [o |-> "addval", h |-> h, i |-> i, v |-> ""]}
     \cup (IF HolderGet(c, h)[i].vals = <<>> THEN {}
           ELSE {[o |-> "delval", h |-> h, i |-> i, j |-> 1],
                 [o |-> "setval", h |-> h, i |-> i, j |-> Len(HolderGet(c, h)[i].vals), v |-> "<z>"]})
     : i \in Some(h)} : h \in Holders}
  \cup {[o |-> "addsub", v |-> v] : v \in {<<>>, <<"urn:cat">>}}
  \cup {[o |-> "delsub", i |-> i] : i \in DOMAIN c.S} \cup {[o |-> "setcat", i |-> i, v |-> "urn:cat2"] : i \in DOMAIN c.S}
  \cup {[o |-> "addres", n |-> q] : q \in {<<>>, <<Content1>>}} \cup {[o |-> "delres", i |-> i] : i \in DOMAIN c.R}
  \cup {[o |-> "setcont", i |-> i, n |-> <<Content1>>] : i \in DOMAIN c.R}
  \cup {[o |-> "setact", q |-> q] : q \in {<<>>, <<NewAttr>>}} \cup {[o |-> "setenv", q |-> <<NewAttr>>]}
  \cup {[o |-> "reload"]}
ResponseOps ==
  {[o |-> "addresult", d |-> d, v |-> v] : d \in Decisions, v \in {<<>>, <<"urn:r">>}}
  \cup {[o |-> "delresult", i |-> i] : i \in DOMAIN c.rs} \cup {[o |-> "setdec", i |-> i, d |-> d] : i \in DOMAIN c.rs, d \in Decisions}
  \cup {[o |-> "setrid", i |-> i, v |-> "a&b"] : i \in DOMAIN c.rs} \cup {[o |-> "reload"]}
Ops == IF c.k = "RQ" THEN RequestOps ELSE ResponseOps

Edits1 == /\ Docs /\ n < 1 /\ doc' \in Edit(doc) /\ n' = n + 1 /\ UNCHANGED <<c, tr>>
Hist == /\ ~Docs /\ n < Depth
        /\ \E o \in Ops : c' = Effect(c, o) /\ tr' = Append(tr, o)
        /\ n' = n + 1 /\ UNCHANGED doc
Next == Edits1 \/ Hist
Spec == Init /\ [][Next]_vars

Complete == c.S # <<>> /\ c.R # <<>> /\ c.A # <<>> /\ c.E # <<>>
Valued == \A h \in Holders : \A i \in DOMAIN HolderGet(c, h) : HolderGet(c, h)[i].vals # <<>>
\* what is written reads back as it was, and is refused exactly when an attribute has no values
RoundTrip == ~Docs => LET r == Parse(Unparse(c)) IN
               /\ IF c.k = "RQ" THEN (r.s = 0) = ~Valued ELSE r.s >= 2
               /\ r.s > 0 => r.c = c /\ (r.s = 3) = (IF c.k = "RQ" THEN Complete ELSE c.rs # <<>>)
RECURSIVE Size(_)
Size(nd) == 1 + LET RECURSIVE F(_)
                    F(i) == IF i > Len(nd.kids) THEN 0 ELSE Size(nd.kids[i]) + F(i + 1)
                IN F(1)
P == Parse(doc)
BaseLoads == Docs /\ n = 0 => P.s = 3 /\ Same(Unparse(P.c), doc)
Lossless == Docs /\ P.s >= 2 => LET r == Parse(Unparse(P.c)) IN r.s >= 2 /\ r.c = P.c
NothingInvented == Docs /\ P.s >= 2 => Size(Unparse(P.c)) <= Size(doc)
EmitD == IF Docs THEN PrintT(<<"@@DOC", ToJson([t |-> doc, s |-> P.s])>>)
         ELSE n = Depth => PrintT(<<"@@HIST", ToJson(tr)>>)
=============================================================================
