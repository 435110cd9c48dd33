----------------------------- MODULE FunctionLaws -----------------------------
(***************************************************************************)
(* Laws of the specified functions, checked over a small universe: what    *)
(* each family means, said another way than in Xacml!Apply1, and that every *)
(* application outside its signature is an error.                          *)
(***************************************************************************)
EXTENDS Xacml
CONSTANT Big
Ts == {"string", "anyURI", "integer"}
Vs == {"", "x", "xy"} \cup (IF Big THEN {"y", "yx"} ELSE {})
Avs == {Av(t, x) : t \in Ts, x \in Vs}
Bags == {Bag(t, q) : t \in Ts, q \in UNION {[1..k -> {"x", "xy"}] : k \in 0..2}}
Vals == Avs \cup Bags \cup {Bool(TRUE), Bool(FALSE), Err}
Fams == {<<f, t>> : f \in {"equal", "bag", "one-and-only", "at-least-one-member-of"}, t \in Ts}
        \cup {<<"regexp-match", "string">>, <<"regexp-match", "anyURI">>, <<"and", "">>, <<"not", "">>,
              <<"concatenate", "string">>, <<"concatenate", "url-string">>}
Tuples == UNION {[1..k -> Vals] : k \in 0..2}

VARIABLES f, a
Init == f \in Fams /\ a \in Tuples
Next == UNCHANGED <<f, a>>
Spec == Init /\ [][Next]_<<f, a>>

Res == Apply1(f[1], f[2], a)
IsPrefixOf(p, x) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
Laws ==
  LET fam == f[1]  t == f[2]  n == Len(a)  err == \E i \in 1..n : a[i] = Err IN
  /\ Res.s \in {"bool", "av", "bag", "err"}
  /\ (err => Res = Err)
  /\ (fam \in {"equal", "at-least-one-member-of", "regexp-match"} /\ n # 2 => Res = Err)
  /\ (fam \in {"one-and-only", "not"} /\ n # 1 => Res = Err)
  /\ (fam = "equal" /\ n = 2 /\ ~err =>
        /\ (Res # Err) = (\A i \in 1..2 : a[i].s = "av" /\ a[i].t = t)
        /\ Res = Apply1(fam, t, <<a[2], a[1]>>)
        /\ (Res = Bool(TRUE) => a[1] = a[2]))
  /\ (fam = "bag" /\ Res # Err => /\ Res.t = t /\ Len(Res.vs) = n /\ \A i \in 1..n : a[i] = Av(t, Res.vs[i])
                                 /\ (n = 1 => Apply1("one-and-only", t, <<Res>>) = a[1])
                                 /\ (n # 1 => Apply1("one-and-only", t, <<Res>>) = Err))
  /\ (fam = "one-and-only" /\ Res # Err => Apply1("bag", t, <<Res>>) = a[1])
  /\ (fam = "at-least-one-member-of" /\ Res # Err =>
        /\ Res = Apply1(fam, t, <<a[2], a[1]>>)
        /\ Res.b = (\E i \in DOMAIN a[1].vs, j \in DOMAIN a[2].vs : a[1].vs[i] = a[2].vs[j]))
  /\ (fam = "not" /\ Res # Err => Apply1("not", "", <<Res>>) = a[1])
  /\ (fam = "and" /\ Res # Err => /\ (Res.b => \A i \in 1..n : a[i] = Bool(TRUE))
                                 /\ (n = 2 => Res = Apply1("and", "", <<a[2], a[1]>>)))
  /\ (fam = "concatenate" /\ Res # Err => /\ Len(Res.v) = Len(a[1].v) + Len(a[2].v) /\ IsPrefixOf(a[1].v, Res.v)
                                         /\ Res.t = a[1].t)
  /\ (fam = "regexp-match" /\ Res # Err => Res.b = IsPrefixOf(a[1].v, a[2].v))   \* metacharacter-free patterns
=============================================================================
