----------------------------- MODULE PolicyLoad -----------------------------
(***************************************************************************)
(* Loading a policy tree from documents that refer to one another.         *)
(*  node  [k, id, m, kids]   k: "P" policy, "PS" policy set, "rP"/"rPS" a  *)
(*        reference to a policy / policy set; m: a mark that tells          *)
(*        definitions of the same id apart                                 *)
(*  load  [docs, top, finder, base]  docs: sequence of [u, node], u an     *)
(*        absolute path, a http URL, or the key of a dictionary finder;    *)
(*        finder: "url", "local" or "dict"; base: "" or an absolute path   *)
(* Definitions are entered in the order in which their elements end.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Pre(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
DropN(x, n) == SubSeq(x, n + 1, Len(x))

\* path segments, "." and ".." taken out
RECURSIVE Split(_,_)
Split(x, cur) ==
  IF x = "" THEN <<cur>>
  ELSE IF SubSeq(x, 1, 1) = "/" THEN <<cur>> \o Split(DropN(x, 1), "")
  ELSE Split(DropN(x, 1), cur \o SubSeq(x, 1, 1))
RECURSIVE Fold(_,_)
Fold(q, done) ==
  IF q = <<>> THEN done
  ELSE IF Head(q) \in {"", "."} THEN Fold(Tail(q), done)
  ELSE IF Head(q) = ".." THEN Fold(Tail(q), IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1))
  ELSE Fold(Tail(q), Append(done, Head(q)))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE "/" \o Head(q) \o Join(Tail(q))
Norm(p) == Join(Fold(Split(p, ""), <<>>))

None == "(none)"
Rel(base, p) == IF base = "" THEN None ELSE Norm(base \o "/" \o p)
\* a fragment is no part of the location, and %xx stands for a character (the few that are used here)
RECURSIVE NoFragment(_), Decode(_)
NoFragment(x) == IF x = "" \/ SubSeq(x, 1, 1) = "#" THEN "" ELSE SubSeq(x, 1, 1) \o NoFragment(DropN(x, 1))
Escapes == ("%20" :> " ") @@ ("%61" :> "a") @@ ("%62" :> "b") @@ ("%23" :> "#") @@ ("%25" :> "%") @@ ("%2F" :> "/")
Decode(x) == IF x = "" THEN ""
             ELSE IF Len(x) >= 3 /\ SubSeq(x, 1, 3) \in DOMAIN Escapes THEN Escapes[SubSeq(x, 1, 3)] \o Decode(DropN(x, 3))
             ELSE SubSeq(x, 1, 1) \o Decode(DropN(x, 1))
\* where a reference points, seen as a URL relative to the base path (which is a file path, not part of a URL)
Path(p, base) == IF Pre(p, "/") THEN Norm(Decode(p)) ELSE Rel(base, Decode(p))
Url(ref, base) ==
  LET r == NoFragment(ref) IN
  IF Pre(r, "file://") THEN Path(DropN(r, 7), base)
  ELSE IF Pre(r, "http://") \/ Pre(r, "https://") \/ Pre(r, "ftp://") THEN r
  ELSE Path(r, base)

Located(ld, ref) ==
  CASE ld.finder = "local" -> None
    [] ld.finder = "dict" -> ref
    [] OTHER -> Url(ref, ld.base)

DocAt(ld, u) == {i \in DOMAIN ld.docs : ld.docs[i].u = u}

Leaf(k, id, m) == [k |-> k, id |-> id, m |-> m, kids |-> <<>>]
Fail == [ok |-> FALSE, st |-> [P |-> <<>>, PS |-> <<>>], tree |-> Leaf("none", "", "")]
Has(q, id) == \E i \in DOMAIN q : q[i].id = id
Get(q, id) == q[CHOOSE i \in DOMAIN q : q[i].id = id]

(***************************************************************************)
(* st: what has been defined so far, [P, PS] sequences of trees.           *)
(* path: the documents being read, innermost first - to find cycles.       *)
(***************************************************************************)
RECURSIVE Read(_,_,_,_), ReadKids(_,_,_,_,_), Resolve(_,_,_,_)
Resolve(ld, ref, st, path) ==
  LET kind == IF ref.k = "rP" THEN "P" ELSE "PS" IN
  IF Has(st[kind], ref.id) THEN [ok |-> TRUE, st |-> st, tree |-> Get(st[kind], ref.id)]
  ELSE LET u == Located(ld, ref.id)  ds == DocAt(ld, u) IN
       IF u = None \/ ds = {} \/ (\E i \in DOMAIN path : path[i] = u) THEN Fail
       ELSE LET r == Read(ld, ld.docs[CHOOSE i \in ds : TRUE].node, st, <<u>> \o path) IN
            IF ~r.ok THEN Fail
            ELSE IF Has(r.st[kind], ref.id) THEN [ok |-> TRUE, st |-> r.st, tree |-> Get(r.st[kind], ref.id)]
            ELSE Fail
ReadKids(ld, kids, st, path, done) ==
  IF kids = <<>> THEN [ok |-> TRUE, st |-> st, kids |-> done]
  ELSE LET h == Head(kids)
           r == IF h.k \in {"P", "PS"} THEN Read(ld, h, st, path) ELSE Resolve(ld, h, st, path)
       IN IF ~r.ok THEN [ok |-> FALSE, st |-> st, kids |-> <<>>]
          ELSE ReadKids(ld, Tail(kids), r.st, path, Append(done, r.tree))
Read(ld, nd, st, path) ==
  IF nd.k \notin {"P", "PS"} THEN Fail
  ELSE LET r == ReadKids(ld, nd.kids, st, path, <<>>) IN
       IF ~r.ok \/ Has(r.st[nd.k], nd.id) THEN Fail
       ELSE LET t == [nd EXCEPT !.kids = r.kids] IN
            [ok |-> TRUE, tree |-> t, st |-> [r.st EXCEPT ![nd.k] = Append(@, t)]]

Empty == [P |-> <<>>, PS |-> <<>>]
LoadOf(ld) ==
  LET ds == DocAt(ld, ld.top) IN
  IF ds = {} THEN Fail
  ELSE Read(ld, ld.docs[CHOOSE i \in ds : TRUE].node, Empty, <<ld.top>>)
=============================================================================
