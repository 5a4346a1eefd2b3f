----------------------------- MODULE TraceTypes -----------------------------
EXTENDS Types, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}
Refused(o) == ~o.ok /\ o.exc = "ValidationError"

CheckType(x, o) ==
  IF Conforms(x.v, x.T) THEN Failed(<< <<"conforming-accepted", o.ok>> >>)
  ELSE Failed(<< <<"nonconforming-refused", Refused(o)>> >>)

CheckModel(x, o) ==
  LET a == IF x.toml THEN FilledIn(x.args) ELSE x.args IN
  IF ModelOk(x.m, a)
  THEN IF ~o.ok THEN (IF x.m = "desc" /\ DescOpen(a) THEN {} ELSE {"wellformed-model-accepted"})
       ELSE Failed(<< <<"model-holds-what-was-given",
                        IF x.m = "desc" THEN o.val.props = Canon([i \in 1..Len(Items(a[1])) |-> Items(a[1])[i].a])
                        ELSE o.val.given>>,
                      <<"model-frozen", o.val.frozen>>,
                      <<"model-equal-to-copy", o.val.equal>>,
                      <<"model-written-out", o.val.written>>,
                      <<"provider-properties-in-order",
                        x.m = "pcfg" => o.val.props = Flattened(StrOf(a[1].cp), a[2].xs)>> >>)
  ELSE IF x.m = "desc" /\ DescOpen(a) /\ o.ok /\ o.val.props = <<>> THEN {}
  ELSE Failed(<< <<"malformed-model-refused", Refused(o)>> >>)

CheckCompare(x, o) ==
  IF ~o.ok THEN {"comparable"}
  ELSE Failed(<<
    <<"equal-iff-alike", o.val.eq = Alike(x.x, x.y) /\ o.val.ne = ~Alike(x.x, x.y)>>,
    <<"equal-hashes", Alike(x.x, x.y) => o.val.hasheq>>,
    <<"ordered-by-parts", IF x.x.t # x.y.t THEN o.val.lt = "error"
                          ELSE o.val.lt = (IF TupLt(x.x.a, x.y.a) THEN "yes" ELSE "no")
                               /\ o.val.gt = (IF TupLt(x.y.a, x.x.a) THEN "yes" ELSE "no")>>,
    <<"feature-key", o.val.feateq = SameFeature(x.x, x.y)>>,
    <<"feature-of-property", o.val.featobj = (IF SameFeature(x.x, x.y) THEN "yes" ELSE "no")>>,
    <<"property-key", (x.x.t = "prop" /\ x.y.t = "prop") => o.val.propeq = Alike(x.x, x.y)>> >>)

CheckCall(x, o) ==
  IF ~CallOk(x.f, x.args) THEN Failed(<< <<"wrong-argument-refused", Refused(o)>> >>)
  ELSE IF x.f \in Filters THEN Failed(<< <<"right-arguments-accepted", o.ok>> >>)
  ELSE IF x.f \in Ranks THEN Failed(<< <<"right-arguments-accepted", o.ok>>,
                                       <<"rank-of-property", o.ok => o.val = Rank(x.f, x.args)>> >>)
  ELSE Failed(<< <<"right-arguments-accepted", o.ok \/ o.exc = "ValidationError">> >>)

Verdict(e) ==
  LET x == e.in  o == e.out IN
  (CASE e.op = "type" -> CheckType(x, o)
     [] e.op = "model" -> CheckModel(x, o)
     [] e.op = "compare" -> CheckCompare(x, o)
     [] e.op = "call" -> CheckCall(x, o))
  \cup Failed(<< <<"inputs-unchanged", e.mut = <<>> >>, <<"repeatable", e.rep>> >>)

Init == sess \in 1..Len(Trace) /\ posn = 0
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET bad == Verdict(Trace[sess].ev[posn + 1])
           IN bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn>>
=============================================================================
