---------------------------- MODULE ContextTrace ----------------------------
(* Judges recorded readings, writings and histories of contexts (ContextDoc). *)
EXTENDS ContextDoc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Known1 == {"a response document with a Status is refused", "a response document with Obligations is refused",
           "the status of a result is not written", "the obligations of a result are not written"}
\* a document and what the reader made of it
ReadBad(r, ob) ==
  IF ob.ok /\ r.s = 0 THEN "a document that must be refused is accepted as " \o ToString(ob.c)
  ELSE IF ~ob.ok /\ r.s = 3
       THEN IF HasStatus(r.c) THEN "a response document with a Status is refused"
            ELSE IF HasOblig(r.c) THEN "a response document with Obligations is refused"
            ELSE "a valid document is refused: " \o ob.d
  ELSE IF ob.ok /\ r.s >= 2 /\ Canon(ob.c) # Canon(r.c) THEN "parsed as " \o ToString(ob.c) \o " where the document says " \o ToString(r.c)
  ELSE ""
\* and what that is written as again
WriteBad(c, s, t) ==
  IF ~t.ok THEN IF s = 3 THEN "writing it fails: " \o t.d ELSE ""
  ELSE IF Same(t.t, Unparse(c)) THEN ""
  ELSE IF Same(t.t, Unparse(Reduced(c)))
       THEN IF HasStatus(c) THEN "the status of a result is not written" ELSE "the obligations of a result are not written"
  ELSE "written as " \o ToString(t.t) \o " where it should be " \o ToString(Unparse(c))

Writable(c) == IF c.k = "RS" THEN 3 ELSE IF Len(c.A) = 1 /\ Len(c.E) = 1 THEN 3 ELSE 2

RECURSIVE First(_,_,_)
First(P(_), q, i) == IF i > Len(q) THEN "" ELSE LET w == P(q[i]) IN IF w # "" THEN w ELSE First(P, q, i + 1)

\* a document, read in several ways
DocBad(x) ==
  LET r == IF x.wf THEN ParseAs(x.k, x.t) ELSE Res(0, <<>>)
      one(ob) == LET w == ReadBad(r, ob) IN
                 IF w \in Known1 THEN w
                 ELSE IF w # "" THEN ob.via \o ": " \o w
                 ELSE IF ob.ok /\ r.s >= 2 THEN LET v == WriteBad(ob.c, Writable(ob.c), ob.w) IN IF v = "" \/ v \in Known1 THEN v ELSE ob.via \o ", then: " \o v
                 ELSE ""
  IN First(one, x.obs, 1)

\* a part of a document, read and written on its own
PartBad(x) ==
  LET r == ParsePart(x.k, x.t)
      one(ob) == LET w == ReadBad(r, ob) IN
                 IF w \in Known1 THEN w
                 ELSE IF w # "" THEN ob.via \o ": " \o w
                 ELSE IF ~ob.ok \/ r.s < 2 THEN ""
                 ELSE IF ~ob.w.ok THEN ob.via \o ", then writing it fails: " \o ob.w.d
                 ELSE IF Same(ob.w.t, UnPart(x.k, ob.c)) THEN ""
                 ELSE IF Same(ob.w.t, UnPart(x.k, Reduced(ob.c)))
                      THEN IF HasStatus(ob.c) THEN "the status of a result is not written" ELSE "the obligations of a result are not written"
                 ELSE ob.via \o ", then written as " \o ToString(ob.w.t)
  IN First(one, x.obs, 1)

\* an object: what it holds, what it is written as (twice), what that reads back as, what the object then holds
ObjBad(c, ob) ==
  IF Canon(ob.c) # Canon(c) THEN "holds " \o ToString(ob.c) \o " where it should hold " \o ToString(c)
  ELSE LET w == First(LAMBDA t : WriteBad(c, Writable(c), t), ob.ws, 1) IN
  IF w # "" THEN w
  ELSE IF Canon(ob.after) # Canon(c) THEN "writing changed the object to " \o ToString(ob.after)
  ELSE IF ob.ws[1].ok
       THEN LET r == Parse(Unparse(c)) IN First(LAMBDA b : LET v == ReadBad(r, b) IN IF v = "" THEN "" ELSE "read back: " \o v, ob.backs, 1)
  ELSE ""

\* a history of edits and reloads: each step's observation against the specified state
RECURSIVE HistBad(_,_,_)
HistBad(c, x, i) ==
  IF i > Len(x.tr) THEN ""
  ELSE LET o == x.tr[i]
           d == IF o.o = "start" THEN o.c ELSE Effect(c, o)
           r == Parse(Unparse(c))
           ob == x.obs[i]
           w == IF o.o = "reload"
                THEN IF ob.ok /\ r.s = 0 THEN "what must be refused is read back"
                     ELSE IF ~ob.ok /\ r.s = 3 THEN "reading back fails: " \o ob.d
                     ELSE ObjBad(d, ob)
                ELSE IF ~ob.ok THEN "the edit fails: " \o ob.d ELSE ObjBad(d, ob)
       IN IF w # "" THEN "step " \o ToString(i) \o " " \o o.o \o ": " \o w ELSE HistBad(d, x, i + 1)

\* the response of a decision point, written and read back: what the object holds is what is read
SelfBad(x) == First(LAMBDA ob : ObjBad(ob.c, ob), x.obs, 1)

Why(x) == IF x.fail # "" THEN "unexpected failure: " \o x.fail
          ELSE CASE x.kind = "ctx.doc" -> DocBad(x)
                 [] x.kind = "ctx.part" -> PartBad(x)
                 [] x.kind = "ctx.obj" -> ObjBad(x.c, x.ob)
                 [] x.kind = "ctx.hist" -> HistBad(<<>>, x, 1)
                 [] x.kind = "ctx.pdp" -> SelfBad(x)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"@@BAD", ToJson([i |-> l, why |-> w])>>)
        /\ IF l = Len(Trace) THEN PrintT(<<"@@DONE", ToJson(l)>>) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
