------------------------------ MODULE TreeEdits ------------------------------
(* Every tree one edit away from a given one. *)
EXTENDS RawTree
CONSTANTS NewTags, NewVals

Bare(t) == [tag |-> t, ns |-> "", at |-> <<>>, text |-> "", kids |-> <<>>]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Insert(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Put(q, i, x) == [q EXCEPT ![i] = x]

\* edits of an element itself
Own(nd) ==
  {[nd EXCEPT !.at = Without(nd.at, i)] : i \in DOMAIN nd.at}
  \cup {[nd EXCEPT !.at[i].v = v] : i \in DOMAIN nd.at, v \in NewVals}
  \cup {[nd EXCEPT !.at[i].n = "X" \o nd.at[i].n] : i \in DOMAIN nd.at}
  \cup {[nd EXCEPT !.at = Append(nd.at, A("Extra", "x"))]}
  \cup {[nd EXCEPT !.text = x] : x \in {"", " ", "x", " y\n", "<&>"}}
  \cup {[nd EXCEPT !.tag = t] : t \in NewTags}
  \cup {[nd EXCEPT !.ns = "urn:other"], [nd EXCEPT !.kids = <<>>]}
  \cup {[nd EXCEPT !.kids = Without(nd.kids, i)] : i \in DOMAIN nd.kids}
  \cup {[nd EXCEPT !.kids = Insert(nd.kids, i, nd.kids[i])] : i \in DOMAIN nd.kids}
  \cup {[nd EXCEPT !.kids = Put(Put(nd.kids, i, nd.kids[j]), j, nd.kids[i])] : i, j \in DOMAIN nd.kids}
  \cup {[nd EXCEPT !.kids = Insert(nd.kids, i, Bare(t))] : i \in {0, Len(nd.kids)}, t \in NewTags}
  \cup UNION {{[nd EXCEPT !.kids = SubSeq(nd.kids, 1, i - 1) \o nd.kids[i].kids \o SubSeq(nd.kids, i + 1, Len(nd.kids))]} : i \in DOMAIN nd.kids}

RECURSIVE Edit(_)
Edit(nd) == Own(nd) \cup UNION {{[nd EXCEPT !.kids[i] = m] : m \in Edit(nd.kids[i])} : i \in DOMAIN nd.kids}

=============================================================================
