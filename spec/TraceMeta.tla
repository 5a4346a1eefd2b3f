------------------------------ MODULE TraceMeta ------------------------------
(* Recorded operations on metadata objects.  Every event carries all live objects
   before and after it. *)
EXTENDS Meta, Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}
Refused(o) == ~o.ok /\ o.exc = "ValidationError"

SameObj(a, b) == a.kind = b.kind /\ SameMeta(a.m, b.m)
SameExcept(e, i) ==      \* all objects but number i are as before
  /\ Len(e.after) >= Len(e.before)
  /\ \A k \in 1..Len(e.before) : k = i \/ SameObj(e.before[k], e.after[k])
Count(e, n) == Len(e.after) = Len(e.before) + n
New(e) == e.after[Len(e.after)]

CheckParse(e) ==
  LET x == e.in  o == e.out
      acc == Accepted(x.kind, x.doc, x.exp) IN
  IF ~acc THEN Failed(<< <<"malformed-refused", Refused(o)>>, <<"refusal-leaves-nothing", Count(e, 0)>> >>)
  ELSE IF ~o.ok THEN {"wellformed-accepted"}
  ELSE Failed(<< <<"read-as-written", Count(e, 1) /\ New(e).kind = x.kind /\ SameMeta(New(e).m, Parse(x.kind, x.doc))>> >>)

CheckConvert(e) ==
  LET x == e.in  src == e.before[x.o].m IN
  IF ~e.out.ok THEN {"converts-without-error"}
  ELSE Failed(<< <<"conversion-complete", Count(e, 1) /\ New(e).kind = x.kind /\ SameMeta(New(e).m, Common(src))>> >>)

Edit2(m, ed) ==
  CASE ed.what = "set-desc" -> [m EXCEPT !.variants = << <<Hash(ed.d), Canon(ed.d)>> >>]
    [] ed.what = "set-label" -> [m EXCEPT !.variants = << <<ed.v, m.variants[1][2]>> >>]
    [] OTHER -> Edit(m, ed)
CheckEdit(e) ==
  LET x == e.in IN
  IF ~e.out.ok THEN {"edits-without-error"}
  ELSE Failed(<< <<"edited-as-asked", Count(e, 0) /\ SameMeta(e.after[x.o].m, Edit2(e.before[x.o].m, x.e))>>,
                 <<"others-unchanged", SameExcept(e, x.o)>> >>)

CheckMerge(e) ==
  LET x == e.in  a == e.before[x.o].m  b == e.before[x.p].m IN
  IF CanMerge(a, b)
  THEN Failed(<< <<"merges", e.out.ok>>, <<"union-of-variants", SameMeta(e.after[x.o].m, Merge(a, b))>>,
                 <<"others-unchanged", SameExcept(e, x.o) /\ Count(e, 0)>> >>)
  ELSE Failed(<< <<"inconsistent-refused", Refused(e.out)>>, <<"refusal-changes-nothing", SameExcept(e, 0) /\ Count(e, 0)>> >>)

CheckWrite(e) ==
  LET x == e.in  o == e.out  obj == e.before[x.o]
      w == Write(obj.kind, obj.m)
      acc == Accepted(obj.kind, w, NoText) IN
  IF ~o.ok THEN {"writes-without-error"}
  ELSE Failed(<< <<"written-form-means-the-same", acc => Accepted(obj.kind, o.doc, NoText) /\ SameMeta(Parse(obj.kind, o.doc), Parse(obj.kind, w))>>,
                 <<"written-form-read-back", IF acc THEN o.back.ok /\ SameMeta(o.back.m, Parse(obj.kind, w)) ELSE Refused(o.back)>>,
                 <<"written-form-unique", o.sametext>>,
                 <<"writing-changes-nothing", SameExcept(e, 0) /\ Count(e, 0)>> >>)

CheckReqs(e) ==
  LET x == e.in  m == e.before[x.o].m
      nss == IF x.all THEN Range(m.ns) ELSE Range(x.nss) IN
  IF ~Declared(m, nss) THEN Failed(<< <<"undeclared-refused", ~e.out.ok>> >>)
  ELSE IF ~e.out.ok THEN {"lists-requirements"}
  ELSE Failed(<< <<"requirements", Range(e.out.val) = Requires(m, nss, x.aot) /\ NoDup(e.out.val)>>,
                 <<"listing-changes-nothing", SameExcept(e, 0) /\ Count(e, 0)>> >>)
CheckRef(e) ==
  LET p == Get(e.before[e.in.o].m.provs, e.in.n) IN
  Failed(<< <<"object-reference", e.out.ok /\ e.out.val = ObjectRef(p)>>,
            <<"listing-changes-nothing", SameExcept(e, 0) /\ Count(e, 0)>> >>)

(* (an object that was changed by hand may hold namespaces without features,
   which are not distinguished from absent ones) *)
(* metadata of a wheel made from an object (no provider has to be queried) *)
CheckDistInfo(e) ==
  LET x == e.in  o == e.out  m == e.before[x.o].m
      d == Canon(x.desc)
      label == IF x.given THEN x.label ELSE IF d = Null THEN "null" ELSE Hash(d)
      want == [m EXCEPT !.variants = << <<label, d>> >>]
      acc == Accepted("dist", Write("dist", want), NoText)
      labelok == IF x.given THEN LabelOk(d = Null, Cp(x.label)) ELSE TRUE IN
  IF ~labelok THEN Failed(<< <<"bad-label-refused", Refused(o)>>, <<"generation-changes-nothing", SameExcept(e, 0)>> >>)
  ELSE IF ~o.ok THEN {"generates-without-error"}
  ELSE Failed(<< <<"generated-metadata", Accepted("dist", o.doc, NoText) = acc /\ SameMeta(Parse("dist", o.doc), Parse("dist", Write("dist", want)))>>,
                 <<"generation-changes-nothing", SameExcept(e, 0) /\ Count(e, 0)>> >>)

Verdict(e) ==
  (CASE e.op = "parse" -> CheckParse(e)
     [] e.op = "convert" -> CheckConvert(e)
     [] e.op = "edit" -> CheckEdit(e)
     [] e.op = "merge" -> CheckMerge(e)
     [] e.op = "write" -> CheckWrite(e)
     [] e.op = "reqs" -> CheckReqs(e)
     [] e.op = "ref" -> CheckRef(e)
     [] e.op = "distinfo" -> CheckDistInfo(e))
  \cup Failed(<< <<"inputs-unchanged", e.mut = <<>> >>, <<"repeatable", e.rep>>,
                 <<"making-one-leaves-the-others", e.op \in {"parse", "convert"} => SameExcept(e, 0)>> >>)
(* nothing happens between two events *)
Chained(s, n) == n = 0 \/ LET a == s[n].after  b == s[n + 1].before
                          IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameObj(a[i], b[i])
Init == sess \in 1..Len(Trace) /\ posn = 0
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET bad == Verdict(Trace[sess].ev[posn + 1]) \cup Failed(<< <<"unobserved-change", Chained(Trace[sess].ev, posn)>> >>)
           IN bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn>>
=============================================================================
