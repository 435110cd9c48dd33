------------------------------ MODULE EditMachine ------------------------------
(***************************************************************************)
(* Every history of up to MaxOps edits of a small policy set, taken from a *)
(* catalogue of edits of every place of the current tree, in the right and *)
(* in wrong kinds.                                                         *)
(***************************************************************************)
EXTENDS Editing, Json
CONSTANTS MaxOps, Every, Emit
VARIABLES tree, hist, idx, shelf

Str == "string"
Des(cat) == [k |-> "des", cat |-> cat, id |-> "urn:a:one", t |-> Str, iss |-> "", mbp |-> FALSE]
Lit(x) == [k |-> "lit", t |-> Str, v |-> x]
Sel == [k |-> "sel", path |-> <<[n |-> "b", ax |-> "child", pa |-> "", pv |-> "", form |-> "rel"]>>, t |-> Str, mbp |-> FALSE]
App(fam, ft, q) == [k |-> "app", fam |-> fam, ft |-> ft, args |-> q]
Has(cat, x) == App("at-least-one-member-of", Str, << App("bag", Str, <<Lit(x)>>), Des(cat) >>)
M(cat, x) == [fam |-> "equal", ft |-> Str, t |-> Str, v |-> x, src |-> Des(cat)]
NoT == [S |-> <<>>, R |-> <<>>, A |-> <<>>, E |-> <<>>]
TgtS(x) == [NoT EXCEPT !.S = << << M("S", x) >> >>]
Rul(i, e, t, c) == [id |-> i, eff |-> e, desc |-> "", tgt |-> t, cond |-> c]
Pol(i, alg, t, q) == [k |-> "P", id |-> i, alg |-> alg, desc |-> "", version |-> "1.0", tgt |-> t, rules |-> q]
Base == [k |-> "PS", id |-> "s1", alg |-> "first-applicable", desc |-> "", version |-> "1.0", tgt |-> <<>>, kids |->
          << Pol("p1", "deny-overrides", <<TgtS("x")>>,
                 << Rul("r1", "Permit", <<>>, << Has("S", "x") >>), Rul("r2", "Deny", << TgtS("z") >>, <<>>) >>),
             Pol("p2", "permit-overrides", <<>>, << Rul("r3", "Permit", <<>>, << Has("R", "y") >>) >>) >>]

\* ------------------------------------------------------------- the catalogue
Sets(at, f, vs)  == [i \in DOMAIN vs |-> [o |-> "set", at |-> at, f |-> f, v |-> vs[i]]]
Bads(at, f, ws)  == [i \in DOMAIN ws |-> [o |-> "bad", at |-> at, f |-> f, w |-> ws[i]]]
BadL(at, ws)     == FlatSeq([i \in DOMAIN ws |-> << [o |-> "badl", at |-> at, how |-> "app", w |-> ws[i]],
                                                    [o |-> "badl", at |-> at, how |-> "ext", w |-> ws[i]],
                                                    [o |-> "badl", at |-> at, how |-> "ins", w |-> ws[i]],
                                                    [o |-> "badl", at |-> at, how |-> "put", w |-> ws[i]] >>])
Lists(q, at, x)  == << [o |-> "app", at |-> at, x |-> x], [o |-> "ins", at |-> at, i |-> 1, x |-> x], [o |-> "clear", at |-> at],
                       [o |-> "ext", at |-> at, xs |-> <<x>>] >>
                    \o (IF Len(q) < 2 THEN <<>> ELSE << [o |-> "rev", at |-> at], [o |-> "mov", at |-> at, i |-> 1, j |-> 2] >>)
                    \o [i \in DOMAIN q |-> [o |-> "del", at |-> at, i |-> i]]
                    \o [i \in DOMAIN q |-> [o |-> "put", at |-> at, i |-> i, x |-> x]]
Sub(q, at, Op(_,_)) == FlatSeq([i \in DOMAIN q |-> Op(q[i], at \o <<i>>)])

DesOps(d, at) == Sets(at, "id", <<"urn:a:two">>) \o Sets(at, "iss", <<"i">>) \o Sets(at, "mbp", <<TRUE, FALSE>>) \o Sets(at, "t", <<"anyURI">>)
              \o Bads(at, "id", <<"none", "int">>) \o Bads(at, "iss", <<"none", "int">>) \o Bads(at, "mbp", <<"none", "int", "str">>)
              \o Bads(at, "t", <<"none", "int">>)
SelOps(d, at) == Sets(at, "mbp", <<TRUE>>) \o Bads(at, "path", <<"none", "int">>) \o Bads(at, "mbp", <<"none", "str">>)
SrcOps(e, at) == IF e.k = "des" THEN DesOps(e, at) ELSE SelOps(e, at)
LitOps(e, at) == Sets(at, "value", <<"y">>) \o Bads(at, "value", <<"int", "none">>)

RECURSIVE ExprOps(_,_)
ExprOps(e, at) ==
  CASE e.k = "lit" -> LitOps(e, at)
    [] e.k = "app" -> (IF e.fam = "bag" THEN <<>> ELSE Sets(at, "fn", <<[fam |-> "and", ft |-> ""], [fam |-> "at-least-one-member-of", ft |-> "anyURI"]>>))
                      \o Bads(at, "fn", <<"none", "int", "unknown", "unimpl">>)
                      \o Lists(e.args, at \o <<"args">>, Lit("x")) \o BadL(at \o <<"args">>, <<"none", "str", "rule">>)
                      \o Sub(e.args, at \o <<"args">>, ExprOps)
    [] OTHER -> SrcOps(e, at)
MatchOps(cat, m, at) ==
  Sets(at, "fn", <<[fam |-> "regexp-match", ft |-> Str]>>) \o Sets(at, "lit", <<[t |-> Str, v |-> "y"], [t |-> "anyURI", v |-> "x"]>>)
  \o Sets(at, "value", <<"z">>) \o Sets(at, "src", <<Des(cat), Sel>>)
  \o Bads(at, "fn", <<"none", "int", "unknown", "unimpl">>) \o Bads(at, "lit", <<"none", "str", "des">>)
  \o Bads(at, "srcd", <<"none", "str", "sel", "lit">>) \o Bads(at, "srcs", <<"none", "str", "des">>)
  \o SrcOps(m.src, at \o <<"src">>)
AltOps(cat, a, at) == Lists(a, at, M(cat, "y")) \o BadL(at, <<"none", "othermatch", "rule">>) \o FlatSeq([i \in DOMAIN a |-> MatchOps(cat, a[i], at \o <<i>>)])
SectOps(cat, q, at) == Lists(q, at, <<M(cat, "y")>>) \o BadL(at, <<"none", "otheralt", "str">>) \o FlatSeq([i \in DOMAIN q |-> AltOps(cat, q[i], at \o <<i>>)])
TargetOps(t, at) == SectOps("S", t.S, at \o <<"S">>) \o Lists(t.R, at \o <<"R">>, <<M("R", "y")>>)
OptT(q, at) == IF q = <<>> THEN <<>> ELSE TargetOps(q[1], at \o <<"tgt", 1>>)
Texts(at) == Sets(at, "desc", <<"about">>) \o Bads(at, "desc", <<"none", "int">>)
Targets(at) == Sets(at, "tgt", <<NoT, TgtS("y")>>) \o Bads(at, "tgt", <<"none", "str", "rule">>)
RuleOps(r, at) ==
  Sets(at, "id", <<"rr">>) \o Bads(at, "id", <<"none", "int">>) \o Texts(at) \o Targets(at)
  \o Sets(at, "eff", <<"Permit", "Deny">>) \o Bads(at, "eff", <<"none", "str", "dec">>)
  \o Sets(at, "cond", <<Has("R", "y"), App("not", "", <<Has("S", "x")>>)>>) \o Bads(at, "cond", <<"none", "app", "target">>)
  \o (IF r.cond = <<>> THEN <<>> ELSE Bads(at, "expr", <<"none", "str", "rule">>))
  \o OptT(r.tgt, at) \o Sub(r.cond, at \o <<"cond">>, ExprOps)
NewRule == Rul("rn", "Deny", <<>>, << Has("S", "y") >>)
RECURSIVE PolOps(_,_)
PolOps(p, at) ==
  Sets(at, "id", <<"pp">>) \o Bads(at, "id", <<"none", "int">>) \o Texts(at) \o Targets(at)
  \o Sets(at, "version", <<"3.0">>) \o Bads(at, "version", <<"none", "int">>)
  \o Sets(at, "alg", <<"deny-overrides", "permit-overrides", "first-applicable">>)
  \o Bads(at, "alg", <<"none", "int", "unknown", "unimpl", "other">>) \o OptT(p.tgt, at)
  \o IF p.k = "P" THEN Lists(p.rules, at \o <<"rules">>, NewRule) \o BadL(at \o <<"rules">>, <<"none", "policy", "str">>)
                       \o Sub(p.rules, at \o <<"rules">>, RuleOps)
     ELSE Lists(p.kids, at \o <<"kids">>, Pol("pn", "deny-overrides", <<>>, <<NewRule>>)) \o BadL(at \o <<"kids">>, <<"none", "rule", "str">>)
          \o Sub(p.kids, at \o <<"kids">>, PolOps)

\* the edits that take an object out, keeping it
Takes(op) == \/ op.o \in {"del", "put"}
             \/ (op.o = "set" /\ (op.f \in {"eff", "src", "lit"} \/ (op.f \in {"tgt", "cond"} /\ Get(tree, op.at)[op.f] # <<>>)))
With(op, f, v) == [g \in DOMAIN op \cup {f} |-> IF g = f THEN v ELSE op[g]]
\* what was taken out by the last edit is put back where it was
Backs == IF shelf = <<>> THEN <<>>
         ELSE LET op == hist[Len(hist)]  x == shelf[Len(shelf)]
                  put == CASE op.o = "del" -> [o |-> "ins", at |-> op.at, i |-> op.i, x |-> x, from |-> Len(shelf)]
                           [] op.o = "put" -> [o |-> "put", at |-> op.at, i |-> op.i, x |-> x, from |-> Len(shelf)]
                           [] OTHER        -> [o |-> "set", at |-> op.at, f |-> op.f, v |-> x, from |-> Len(shelf)]
              IN <<put>>
Init == tree = Base /\ hist = <<>> /\ idx = 0 /\ shelf = <<>>
Plain == Append(PolOps(tree, <<>>), [o |-> "copy", at |-> <<>>])
\* with an object on the shelf nothing but putting it back: other edits are the same without one there
Ops == IF shelf # <<>> THEN Backs
       ELSE IF Len(hist) = MaxOps - 1 THEN Plain
       ELSE LET c == Plain IN FlatSeq([i \in DOMAIN c |-> IF Takes(c[i]) THEN << c[i], With(c[i], "keep", TRUE) >> ELSE << c[i] >>])
Next == /\ Len(hist) < MaxOps
        /\ LET c == Ops IN \E i \in DOMAIN c :
             /\ tree' = Edited(tree, c[i]) /\ shelf' = Shelved(shelf, tree, c[i])
             /\ hist' = Append(hist, c[i]) /\ idx' = IF From(c[i]) # 0 THEN 0 ELSE 31 * idx + i
Spec == Init /\ [][Next]_<<tree, hist, idx, shelf>>

\* ---------------------------------------------------------------- properties
Attr(q) == [id |-> "urn:a:one", t |-> Str, iss |-> "", vals |-> q]
Rq(s, r) == [S |-> << <<Attr(s)>> >>, R |-> << <<Attr(r)>> >>, A |-> <<>>, E |-> <<>>, pip |-> <<>>,
             doc |-> << [tag |-> "a", text |-> "", at |-> <<>>, kids |-> << [tag |-> "b", text |-> "x", at |-> <<>>, kids |-> <<>>] >>] >>]
Rqs == << Rq(<<"x">>, <<"y">>), Rq(<<"y">>, <<"x">>), Rq(<<"z", "x">>, <<"z">>) >>

\* every reachable tree decides, and only one way unless an error meets a settled target
Decides == \A j \in DOMAIN Rqs : LET v == PolVal(tree, Rqs[j]) IN v # {} /\ v \subseteq Decisions
\* an accepted edit reaches its place, a refused one nothing; every edit leaves the places beside it as they were
Steps == [][LET op == hist'[Len(hist')]
                Same(q, r, n) == \A i \in DOMAIN q : i # n => i \in DOMAIN r /\ r[i] = q[i]
                n1 == IF Len(op.at) >= 2 /\ op.at[1] = "kids" THEN op.at[2] ELSE 0
                n2 == IF n1 # 0 /\ Len(op.at) >= 4 /\ op.at[3] = "rules" THEN op.at[4] ELSE 0
                InKids == Len(op.at) = 1 /\ op.at[1] = "kids"
                InRules == n1 # 0 /\ Len(op.at) = 3 /\ op.at[3] = "rules"
            IN /\ Refused(op) => tree' = tree
               /\ op.o = "set" /\ op.f \in {"alg", "eff", "id", "iss", "mbp", "t", "desc", "version", "src"}
                    => Get(tree', op.at)[op.f] = op.v
               /\ op.o = "set" => Edited(tree', op) = tree'
               /\ ~InKids => Len(tree'.kids) = Len(tree.kids) /\ Same(tree.kids, tree'.kids, n1)
               /\ n1 # 0 /\ ~InRules => LET q == tree.kids[n1]  r == tree'.kids[n1] IN
                    q.k = "P" => Len(q.rules) = Len(r.rules) /\ Same(q.rules, r.rules, n2)]_hist
\* what is taken out and put back where it was leaves the tree as it was
PutBack == [][(From(hist'[Len(hist')]) # 0 /\ Len(hist) = 1) => tree' = Base]_hist
\* of the longest histories every Every-th is replayed in the real code
EmitH == Emit /\ Len(hist) = MaxOps /\ idx % Every = 0 => PrintT(<<"@@HIST", ToJson([ops |-> hist])>>)
EmitI == Emit /\ hist = <<>> => PrintT(<<"@@INIT", ToJson([p |-> Base, rqs |-> Rqs])>>)
=============================================================================
