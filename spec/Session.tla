-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A process using decision points: the state is what each decision point  *)
(* decides by, what each request object says and what each response handed *)
(* out says; nothing else.  An evaluation reads the first two and adds a   *)
(* response; edits of requests and responses change only what they name.   *)
(*                                                                         *)
(* Operations (also the wire format of recorded histories; indices from 1):*)
(*  [o|->"eval", d, r]           decision point d evaluates request r      *)
(*  [o|->"par", es]              the evaluations es (of [d, r]) overlap    *)
(*  [o|->"vals", r, cat, i, j, vals]   new values for an attribute         *)
(*  [o|->"iss", r, cat, i, j, iss]     new issuer for an attribute         *)
(*  [o|->"attrs", r, cat, i, attrs]    new attributes for a holder         *)
(*  [o|->"cat", r, cat, q]       new subjects, resources, action, ...      *)
(*  [o|->"pip", r, tab]          the attribute lookup's table changes      *)
(*  [o|->"doc", r, doc]          the request document changes              *)
(*  [o|->"pol", d, p]            decision point d now has policy p         *)
(*  [o|->"rdec", k, dec], ["rval", k, dec], ["rmsg", k, msg], ["rcode", k, *)
(*   code], ["rdrop", k], ["radd", k, dec]   edits of the k-th response    *)
(***************************************************************************)
EXTENDS Xacml

InitS(pols, rqs, pdps) == [pols |-> pols, rqs |-> rqs, pdps |-> pdps, resps |-> <<>>]

Answer(st, e) == PolVal(st.pols[st.pdps[e.d]], st.rqs[e.r])

\* a response as its sequence of results [dec, msg, code, rid]
EditResp(q, op) ==
  CASE op.o = "rdec"  -> [q EXCEPT ![1].dec = op.dec]
    [] op.o = "rval"  -> [q EXCEPT ![1].dec = op.dec]
    [] op.o = "rmsg"  -> [q EXCEPT ![1].msg = op.msg]
    [] op.o = "rcode" -> [q EXCEPT ![1].code = op.code]
    [] op.o = "rdrop" -> <<>>
    [] op.o = "radd"  -> Append(q, [dec |-> op.dec, msg |-> "", code |-> "urn:oasis:names:tc:xacml:1.0:status:ok", rid |-> ""])

\* effect of an edit
Edited(st, op) ==
  CASE op.o = "vals"  -> [st EXCEPT !.rqs[op.r][op.cat][op.i][op.j].vals = op.vals]
    [] op.o = "iss"   -> [st EXCEPT !.rqs[op.r][op.cat][op.i][op.j].iss = op.iss]
    [] op.o = "attrs" -> [st EXCEPT !.rqs[op.r][op.cat][op.i] = op.attrs]
    [] op.o = "cat"   -> [st EXCEPT !.rqs[op.r][op.cat] = op.q]
    [] op.o = "pip"   -> [st EXCEPT !.rqs[op.r].pip[1].tab = op.tab]
    [] op.o = "doc"   -> [st EXCEPT !.rqs[op.r].doc[1] = op.doc]
    [] op.o = "pol"   -> [st EXCEPT !.pdps[op.d] = op.p]
    [] OTHER          -> [st EXCEPT !.resps[op.k] = EditResp(st.resps[op.k], op)]
=============================================================================
