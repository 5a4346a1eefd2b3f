------------------------------ MODULE TracePlugin ------------------------------
(* Recorded sessions with plugin loaders and the functions built on them.  The
   state of module Plugin is carried along the session. *)
EXTENDS Plugin, Resolver, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn, store
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}

(* configurations as maps: the order of namespaces does not matter *)
SameCfg(a, b) == Keys(a) = Keys(b) /\ Len(a) = Len(b) /\ \A n \in Keys(a) : Get(a, n) = Get(b, n)
Flatten(n, fs) == Flat([i \in 1..Len(fs) |-> [j \in 1..Len(fs[i][2]) |-> <<n, fs[i][1], fs[i][2][j]>>]])
FlatOk(flat, cfg) == Keys(flat) = Keys(cfg) /\ \A n \in Keys(cfg) : Get(flat, n) = Flatten(n, Get(cfg, n))
(* the configuration of a loader, as recorded *)
Conf(x) == IF x.kind = "list" THEN [kind |-> "list", apis |-> x.apis, bad |-> x.bad, i |-> x.i]
           ELSE [kind |-> "pkg", m |-> Parse(x.dk, x.doc), opt |-> x.opt,
                 only |-> IF x.only.has THEN Only(Range(x.only.v)) ELSE NoFilter,
                 aot |-> x.aot, marks |-> x.marks, refs |-> x.refs, i |-> x.i]
Pkg(x, opt, only, aot) == [kind |-> "pkg", m |-> Parse(x.dk, x.doc), opt |-> opt, only |-> only, aot |-> aot,
                           marks |-> x.marks, refs |-> x.refs, i |-> x.i]

(* each step: [s, bad] *)
Judged(r, e, clauses) ==
  [s |-> r.s,
   bad |-> Failed(<< <<"only-applicable-run", OnlyThose(r.s, r.fresh, e.calls)>>,
                     <<"applicable-run", AllThose(r.s, r.fresh, e.calls)>>,
                     <<"error-reported", r.ok \/ ~e.out.ok>>,
                     <<"works", ~r.ok \/ e.out.ok>> >>)
           \cup (IF r.ok /\ e.out.ok THEN Failed(clauses) ELSE {})]

Offered(ds, cfg, m) ==
  LET sup == TLCEval(Flat([i \in 1..Len(cfg) |-> Flatten(cfg[i][1], cfg[i][2])]))
      pr == [ns |-> m.ns, feat |-> m.feat, prop |-> m.prop]
  IN Resolve(ds, sup, pr, <<>>, <<>>, <<>>, <<>>)
LabelsFor(vs, ds) == [i \in 1..Len(ds) |-> LET S == {j \in 1..Len(vs) : vs[j][2] = ds[i]} IN
                        IF S = {} THEN "null" ELSE vs[CHOOSE j \in S : \A k \in S : j >= k][1]]
Descs(vs) == [i \in 1..Len(vs) |-> vs[i][2]]

Step(s, e) ==
  LET x == e.in IN
  CASE e.op = "begin" -> [s |-> Start(x.keyof, x.beh), bad |-> {}]
    [] e.op = "set" -> [s |-> [s EXCEPT !.beh = PutKey(@, x.key, x.beh)], bad |-> {}]
    [] e.op = "enter" -> LET r == TLCEval(Enter(s, x.l, Conf(x.conf), e.calls)) IN Judged(r, e, <<>>)
    [] e.op = "leave" -> LET r == Leave(s, x.l) IN Judged(r, e, << <<"exception-not-swallowed", ~e.out.v>> >>)
    [] e.op = "query" ->
         LET r == TLCEval(Query(s, x.l, x.k, x.fixed, e.calls)) IN
         Judged(r, e, << <<"answer", SameCfg(e.out.v, r.v)>>, <<"flattened", FlatOk(e.out.flat, e.out.v)>> >>)
    [] e.op = "attrs" ->
         LET ok == Entered(s, x.l)  nss == IF ok THEN Get(s.ld, x.l).nss ELSE <<>> IN
         Judged(Result(s, ok, <<>>, <<>>), e,
                << <<"loaded-namespaces", Range(e.out.nss) = {nss[i][2] : i \in 1..Len(nss)} /\ NoDup(e.out.nss)>>,
                   <<"loaded-plugins", Range(e.out.apis) = {<<nss[i][2], nss[i][1]>> : i \in 1..Len(nss)}>>,
                   <<"provider-packages", x.packages = <<>> \/ Range(e.out.packages) = Range(x.packages)>> >>)
    [] e.op = "validate" ->
         LET d == Canon(x.desc)
             r == TLCEval(Once(s, Pkg(x, Everything, Only(NamespacesOf(d)), TRUE), "all", FALSE, e.calls))
             verdicts == [i \in 1..Len(d) |-> <<d[i], Judge(d[i], r.v)>>]
             over == Overfull(d, r.v)
             any(w) == {d[i] : i \in {j \in 1..Len(d) : verdicts[j][2] = w}} IN
         Judged(r, e, << <<"one-verdict-each", Len(e.out.results) = Len(d)>>,
                         <<"verdicts", Range(e.out.results) = Range(verdicts)>>,
                         <<"violations", Range(e.out.over) = over>>,
                         <<"summary", /\ Range(e.out.invalid) = any("invalid") /\ Range(e.out.unknown) = any("unknown")
                                      /\ e.out.valid = (over = {} /\ any("invalid") = {})
                                      /\ e.out.strict = (over = {} /\ any("invalid") = {} /\ any("unknown") = {})>> >>)
    [] e.op = "resolve" ->
         LET m == Parse(x.dk, x.doc)
             r == TLCEval(Once(s, Pkg(x, x.opt, NoFilter, FALSE), "sup", FALSE, e.calls)) IN
         Judged(r, e, << <<"resolution", e.out.v = LabelsFor(m.variants, Offered(Descs(m.variants), r.v, m))>> >>)
    [] e.op = "support" ->
         LET r == TLCEval(Once(s, Pkg(x, x.opt, NoFilter, FALSE), "sup", FALSE, e.calls))
             sup == UNION {Range(Flatten(r.v[i][1], r.v[i][2])) : i \in 1..Len(r.v)} IN
         Judged(r, e, << <<"supported", e.out.v = SupportedBy(Canon(x.desc), sup)>> >>)
    [] e.op = "distinfo" ->
         LET m == Parse(x.dk, x.doc)
             d == Canon(x.desc)
             B == Built(m, d)
             c == Pkg(x, Everything, Only(B), TRUE)
             r == IF B = {} THEN Result(s, TRUE, <<>>, <<>>) ELSE TLCEval(Once(s, c, "sup", TRUE, e.calls))
             plug == [i \in 1..Len(r.v) |-> <<r.v[i][1], [sup |-> [ok |-> TRUE, v |-> r.v[i][2]]]>>]
             \* those that do not apply here keep what is recorded
             A == Asked(m, Everything, Only(B), TRUE, x.marks)
             kept(n, f) == Range(GetOr(GetOr(m.static, n, <<>>), f, <<>>))
             good == /\ r.ok
                     /\ A \subseteq Keys(plug) /\ B \ A \subseteq Keys(m.static)
                     /\ \A n \in A : \A i \in 1..Len(Get(plug, n).sup.v) : ~Get(plug, n).sup.v[i][3]
                     /\ \A i \in 1..Len(d) : d[i][1] \in B =>
                          d[i][3] \in (IF d[i][1] \in A THEN ValuesIn(Get(plug, d[i][1]).sup.v, d[i][2]) ELSE kept(d[i][1], d[i][2]))
             want == [RecordAll(m, A, plug) EXCEPT !.variants = << <<x.label, d>> >>]
             back == IF e.out.ok /\ IsD(e.out.doc) /\ WellFormed("dist", e.out.doc) THEN Read(e.out.doc) ELSE m
         IN Judged([r EXCEPT !.ok = good], e,
              << <<"recorded-properties", \A n \in B : Fn(GetOr(back.static, n, <<>>)) = Fn(Get(want.static, n))>>,
                 <<"feature-order-complete", \A n \in B : GetOr(back.feat, n, <<>>) = GetOr(want.feat, n, <<>>)>>,
                 <<"metadata-right", IsD(e.out.doc) /\ WellFormed("dist", e.out.doc) /\ SameMeta(back, want)>>,
                 <<"metadata-accepted", Accepted("dist", Write("dist", want), NoText) => e.out.accepted>>,
                 <<"unused-aot-providers-recorded", e.out.accepted \/ Unrecorded(m, d) = {}>> >>)
    [] e.op = "replay" ->     \* resolution with what an earlier distinfo recorded, instead of the plugins
         LET m == Parse(x.dk, x.doc)
             B == Asked(m, Everything, Only(Built(m, Canon(x.desc))), TRUE, x.marks)
             lookup == TLCEval(Once(s, Pkg(x, Everything, Only(B), TRUE), "sup", TRUE, e.calls))   \* (remembered)
             rest == TLCEval(Once(s, [Pkg(x, x.opt, NoFilter, FALSE) EXCEPT !.m.static = Filter(@, LAMBDA p : p[1] \notin B)],
                                  "sup", FALSE, e.calls))
             vs == [i \in 1..Len(x.variants) |-> <<x.variants[i][1], Canon(x.variants[i][2])>>]
             all == rest.v \o lookup.v IN
         Judged([rest EXCEPT !.ok = lookup.ok /\ rest.ok], e,
                << <<"replayed-resolution", e.out.v = LabelsFor(vs, Offered(Descs(vs), all, m))>> >>)
    [] e.op = "plist" ->
         LET r == TLCEval(Enter(s, "once", Conf(x.conf), e.calls))
             nss == IF r.ok THEN Get(r.s.ld, "once").nss ELSE <<>> IN
         Judged([r EXCEPT !.s = Leave(r.s, "once").s], e, << <<"printed-namespaces", Range(e.out.nss) = {nss[i][2] : i \in 1..Len(nss)} /\ NoDup(e.out.nss)>> >>)
    [] e.op \in {"pget", "platform"} ->
         LET r == TLCEval(Once(s, Conf(x.conf), x.k, FALSE, e.calls))
             byns == Filter(r.v, LAMBDA p : ~x.n.has \/ p[1] = x.n.v)
             byf == [i \in 1..Len(byns) |-> <<byns[i][1], Filter(byns[i][2], LAMBDA f : ~x.f.has \/ f[1] = x.f.v)>>]
             want == Filter(byf, LAMBDA p : p[2] # <<>>)
             shown(p) == IF e.op = "pget" THEN p ELSE <<p[1], [i \in 1..Len(p[2]) |-> <<p[2][i][1], p[2][i][2]>>]>> IN
         Judged(r, e, << <<"printed-configs", SameCfg(e.out.v, [i \in 1..Len(want) |-> shown(want[i])])>> >>)

NoState == Start(<<>>, <<>>)
Init == sess \in 1..Len(Trace) /\ posn = 0 /\ store = NoState
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET r == TLCEval(Step(store, Trace[sess].ev[posn + 1]))
           IN /\ store' = r.s
              /\ r.bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> r.bad]))
Spec == Init /\ [][Next]_<<sess, posn, store>>
=============================================================================
