------------------------------ MODULE TraceText ------------------------------
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}
Refused(o) == ~o.ok /\ o.exc = "ValidationError"

CheckParse(x, o) ==
  LET ps == TLCEval(PartsOf(x.cp, x.kind)) IN
  IF ps = <<>> THEN Failed(<< <<"malformed-text-refused", Refused(o)>> >>)
  ELSE IF ~o.ok THEN {"wellformed-text-accepted"}
  ELSE Failed(<< <<"parts-as-written", o.val.parts = ps>>,
                 <<"written-canonically", o.val.text = TextOf(ps)>>,
                 <<"text-round-trip", o.val.again>>,
                 <<"dict-round-trip", o.val.deser>> >>)
(* parts given directly: every one has a type and, if it is text, code points *)
GoodArgs(x) == /\ \A i \in 1..Len(x.args) : x.args[i].t = "str"
               /\ \A i \in 1..Len(x.args) : IF i = 3 THEN ValueTxt(x.args[i].cp) ELSE NameTxt(x.args[i].cp)
CheckMake(x, o) ==
  IF GoodArgs(x) THEN Failed(<< <<"wellformed-parts-accepted", o.ok>>,
                               <<"parts-as-written", o.ok => o.val = [i \in 1..Len(x.args) |-> x.args[i].cp]>> >>)
  ELSE Failed(<< <<"malformed-parts-refused", Refused(o)>> >>)

Flatten(x) == IF x.form = "groups" THEN Flat(x.groups) ELSE x.props
CheckDesc(x, o) ==
  LET ps == TLCEval(Flatten(x)) IN
  IF ~NoDup(ps) THEN Failed(<< <<"duplicate-refused", Refused(o)>> >>)
  ELSE IF ~o.ok THEN {"description-accepted"}
  ELSE Failed(<< <<"presented-sorted", o.val.props = Canon(ps)>>,
                 <<"hash-of-set", o.val.hash = Hash(ps)>>,
                 <<"hash-again", o.val.hash2 = o.val.hash>>,
                 <<"null-iff-empty", o.val.null = (ps = <<>>)>>,
                 <<"dict-round-trip", o.val.dict /\ o.val.deser>> >>)
CheckBadDesc(x, o) == Failed(<< <<"malformed-parts-refused", Refused(o)>> >>)

(* the command line: texts of properties, in groups *)
CheckCli(x, o) ==
  LET all == Flat(x.groups)
      ps == TLCEval([i \in 1..Len(all) |-> PartsOf(all[i], "prop")]) IN
  IF (\E i \in 1..Len(ps) : ps[i] = <<>>) \/ ~NoDup(ps)
  THEN Failed(<< <<"malformed-text-refused", ~o.ok>>, <<"no-hash-when-refused", o.out = "">> >>)
  ELSE IF ~o.ok THEN {"wellformed-text-accepted"}
  ELSE Failed(<< <<"hash-of-set", o.out = Hash([i \in 1..Len(ps) |-> [j \in 1..3 |-> StrOf(ps[i][j])]]) \o "\n">> >>)

CheckLabel(x, o) ==
  LET d == Canon(x.props) IN
  IF ~x.given THEN Failed(<< <<"default-label", o.ok /\ o.val = (IF d = <<>> THEN NullLabel ELSE Hash(d))>> >>)
  ELSE IF LabelOk(d = <<>>, x.cp) THEN Failed(<< <<"custom-label-verbatim", o.ok /\ o.cp = x.cp>> >>)
  ELSE Failed(<< <<"bad-label-refused", Refused(o)>> >>)

CheckName(x, o) ==
  LET w == TLCEval(WheelName(x.cp)) IN
  Failed(<< <<"wheel-name-recognised", o.unmake.kind = w.kind>>,
            <<"base-name", w.kind = "variant" => o.unmake.base = w.base>>,
            <<"wheel-name-recognised-by-analyze",
               o.analyze = (CASE w.kind = "invalid" -> "error"
                              [] w.kind = "plain" -> "plain"
                              [] w.kind = "variant" -> IF w.label = x.label THEN "variant" ELSE "error")>> >>)

CheckEnv(x, o) ==
  LET d == Canon(x.props) IN
  IF ~o.ok THEN {"environment-given"}
  ELSE Failed(<<
    <<"environment-namespaces", Range(o.val.ns) = EnvNs(d) /\ NoDup(o.val.ns)>>,
    <<"environment-features", Range(o.val.feat) = EnvFeat(d) /\ NoDup(o.val.feat)>>,
    <<"environment-properties", Range(o.val.prop) = EnvProp(d) /\ NoDup(o.val.prop)>>,
    <<"environment-label", IF x.given THEN o.val.haslabel /\ o.val.label = x.label ELSE ~o.val.haslabel>>,
    <<"environment-nothing-else", o.val.extra = <<>> >>,
    <<"membership-asked", \A i \in 1..Len(x.asks) :
         o.val.answers[i] = (CASE x.asks[i][1] = "ns" -> x.asks[i][2] \in EnvNs(d)
                               [] x.asks[i][1] = "feat" -> x.asks[i][2] \in EnvFeat(d)
                               [] x.asks[i][1] = "prop" -> x.asks[i][2] \in EnvProp(d))>> >>)

Verdict(e) ==
  LET x == e.in  o == e.out IN
  (CASE e.op = "parse" -> CheckParse(x, o)
     [] e.op = "make" -> CheckMake(x, o)
     [] e.op = "desc" -> CheckDesc(x, o)
     [] e.op = "baddesc" -> CheckBadDesc(x, o)
     [] e.op = "cli" -> CheckCli(x, o)
     [] e.op = "label" -> CheckLabel(x, o)
     [] e.op = "name" -> CheckName(x, o)
     [] e.op = "env" -> CheckEnv(x, o))
  \cup Failed(<< <<"inputs-unchanged", e.mut = <<>> >>, <<"repeatable", e.rep>> >>)

Init == sess \in 1..Len(Trace) /\ posn = 0
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET bad == Verdict(Trace[sess].ev[posn + 1])
           IN bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn>>
=============================================================================
