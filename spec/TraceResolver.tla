---------------------------- MODULE TraceResolver ----------------------------
(* Validates recorded calls of the resolver against module Resolver.  A trace is
   a file of sessions, each a sequence of events {op, in, out}; every event is
   judged by the set of clauses of the specification that it violates. *)
EXTENDS Resolver, Version, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn  \* (names must differ from those of operator parameters, or TLC does not cache)

Failed(e, clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}

(* --- get_variants_by_priority / check_variant_supported ------------------- *)
RunsPlugin(ns, p, enabled) ==
  /\ p.install /\ p.marker
  /\ p.optional => (enabled = "all" \/ (enabled = "some" /\ ns \in Range(p.sel)))
ConfProps(ns, conf) ==
  Flat([i \in 1..Len(conf) |-> [j \in 1..Len(conf[i][2]) |-> <<ns, conf[i][1], conf[i][2][j]>>]])
SupOf(x) ==
  Flat([i \in 1..Len(x.provs) |->
     LET ns == x.provs[i][1]  p == x.provs[i][2] IN
     IF ~p.install THEN ConfProps(ns, GetOr(x.static, ns, <<>>))
     ELSE IF RunsPlugin(ns, p, x.enabled) THEN ConfProps(ns, GetOr(x.plug, ns, <<>>))
     ELSE <<>>])
ApiPr(x) ==
  LET fm == <<x.cfg.feat, x.pkg.feat>>  pm == <<x.cfg.prop, x.pkg.prop>>
      nss == {x.provs[i][1] : i \in 1..Len(x.provs)} \cup {AbiNs}
      fns(ns) == UNION {Keys(GetOr(pm[i], ns, <<>>)) : i \in 1..2}
  IN [ns |-> AggList(<<x.cfg.ns, x.pkg.ns>>),
      feat |-> SetToSeqMap(nss, LAMBDA n : AggFeat(fm, n)),
      prop |-> SetToSeqMap(nss, LAMBDA n : SetToSeqMap(fns(n), LAMBDA f : AggProp(pm, n, f)))]
LabelDesc(x, lab) ==
  IF HasKey(x.variants, lab) THEN Canon(Get(x.variants, lab)) ELSE <<>>
CheckApi(e) ==
  LET x == e.in
      o == e.out
      ds == TLCEval([i \in 1..Len(x.variants) |-> Canon(x.variants[i][2])])
      sup == TLCEval(SupOf(x))
      abi == AbiProps(Installed(x.inst), Requests(x.env))
      pr == TLCEval(ApiPr(x))
      all == TLCEval(sup \o abi)
      pra == TLCEval([pr EXCEPT !.ns = Append(@, AbiNs)])
      known == Keys(x.variants) \cup {"null"}
      labs == o.val
      out == TLCEval([i \in 1..Len(labs) |-> LabelDesc(x, labs[i])])
  IN IF ~o.ok THEN {"resolves-without-error"}
     ELSE IF ~(Range(labs) \subseteq known) THEN {"only-labels-of-the-index"}
     ELSE Failed(e, <<
       <<"only-supported-offered", Sound(out, ds, all, <<>>, <<>>, <<>>)>>,
       <<"every-supported-offered", Complete(out, ds, all, <<>>, <<>>, <<>>)>>,
       <<"each-once", NoDup(out)>>,
       <<"null-offered", Null \in Range(out)>>,
       <<"null-last", NullLast(out)>>,
       <<"null-label", \A i \in 1..Len(labs) : labs[i] = "null" <=> out[i] = Null>>,
       <<"preference-order", Ordered(out, all, pra)>>,
       <<"ties-keep-listing-order", TiesStable(out, ds, all, pra)>>,
       <<"single-check-agrees",
           \A i \in 1..Len(o.checks) :
             o.checks[i][2] = (IF SupportedBy(Canon(x.variants[i][2]), Range(all)) THEN "yes" ELSE "no")>>,
       <<"single-implicit",
           o.implicit = (IF Len(x.variants) # 1 THEN "ValueError"
                         ELSE IF SupportedBy(ds[1], Range(all)) THEN "yes" ELSE "no")>>,
       <<"exact-answer", out = Resolve(ds, sup, pr, abi, <<>>, <<>>, <<>>)>> >>)

(* --- direct calls of the stages ------------------------------------------- *)
Descs(xs) == TLCEval([i \in 1..Len(xs) |-> Canon(xs[i])])
Pr3(x) == [ns |-> x.ns, feat |-> x.feat, prop |-> x.prop]
CheckSfs(e) ==
  LET x == e.in  o == e.out
      ds == Descs(x.ds)
      abi == AbiProps(Installed(x.inst), Requests(x.env))
      pr == Pr3(x)
      all == TLCEval(x.sup \o abi)
      pra == TLCEval([pr EXCEPT !.ns = Append(@, AbiNs)])
      free == Resolve(ds, x.sup, pr, abi, <<>>, <<>>, <<>>)
  IN IF Unranked(x.sup, pra) # {} THEN Failed(e, << <<"unranked-namespace-reported", ~o.ok /\ o.exc = "ValidationError">> >>)
     ELSE IF ~o.ok THEN {"resolves-without-error"}
     ELSE Failed(e, <<
       <<"only-allowed-offered", Sound(o.val, ds, all, x.fn, x.ff, x.fp)>>,
       <<"every-allowed-offered", Complete(o.val, ds, all, x.fn, x.ff, x.fp)>>,
       <<"each-once", NoDup(o.val)>>,
       <<"null-last", NullLast(o.val)>>,
       <<"preference-order", Ordered(o.val, all, pra)>>,
       <<"ties-keep-listing-order", TiesStable(o.val, ds, all, pra)>>,
       <<"exclusion-keeps-order", o.val = Filter(free, LAMBDA d : OfferOk(d, all, x.fn, x.ff, x.fp))>>,
       <<"exact-answer", o.val = Resolve(ds, x.sup, pr, abi, x.fn, x.ff, x.fp)>> >>)

CheckFilter(e) ==
  LET x == e.in  o == e.out
      ds == Descs(x.ds)
      want == CASE x.which = "dup"  -> Dedup(ds)
                [] x.which = "ns"   -> FilterNs(ds, x.fn)
                [] x.which = "feat" -> FilterFeat(ds, x.ff)
                [] x.which = "prop" -> FilterProp(ds, x.sup, x.fp)
                [] x.which = "all"  -> FilterAll(ds, x.sup, x.fn, x.ff, x.fp)
  IN IF ~o.ok THEN {"filters-without-error"}
     ELSE Failed(e, << <<"filter-" \o x.which, o.val = want>> >>)

CheckSortProps(e) ==
  LET x == e.in  o == e.out  pr == Pr3(x) IN
  IF Unranked(x.sup, pr) # {} THEN Failed(e, << <<"unranked-namespace-reported", ~o.ok /\ o.exc = "ValidationError">> >>)
  ELSE IF ~o.ok THEN {"sorts-without-error"}
  ELSE Failed(e, << <<"property-order", o.val = SortProps(x.sup, pr)>> >>)

CheckSortDescs(e) ==
  LET x == e.in  o == e.out  ds == Descs(x.ds) IN
  IF \E i \in 1..Len(ds) : ~Rankable(ds[i], x.sorted)
  THEN Failed(e, << <<"unfiltered-reported", ~o.ok /\ o.exc = "ValidationError">> >>)
  ELSE IF ~o.ok THEN {"sorts-without-error"}
  ELSE Failed(e, << <<"description-order", o.val = SortDescs(ds, x.sorted)>> >>)

(* aggregation; sources: sequence of lists / maps / maps of maps *)
AggClean(srcs) == \A i \in 1..Len(srcs) : NoDup(srcs[i])
CheckAgg(e) ==
  LET x == e.in  o == e.out
      same(got, srcs) == /\ Dedup(got) = AggList(srcs)
                         /\ AggClean(srcs) => NoDup(got)
  IN IF ~o.ok THEN {"aggregates-without-error"}
     ELSE CASE x.kind = "ns" -> Failed(e, << <<"aggregate-namespaces", same(o.val, x.srcs)>> >>)
       [] x.kind = "feat" ->
            Failed(e, << <<"aggregate-features",
              /\ \A k \in AggMapKeys(x.srcs) :
                   same(GetOr(o.val, k, <<>>), [i \in 1..Len(x.srcs) |-> GetOr(x.srcs[i], k, <<>>)])
              /\ Keys(o.val) \subseteq AggMapKeys(x.srcs)>> >>)
       [] x.kind = "prop" ->
            LET sub(i, k) == GetOr(x.srcs[i], k, <<>>)
                fks(k) == UNION {Keys(sub(i, k)) : i \in 1..Len(x.srcs)} IN
            Failed(e, << <<"aggregate-properties",
              /\ Keys(o.val) \subseteq AggMapKeys(x.srcs)
              /\ \A k \in AggMapKeys(x.srcs) :
                   /\ Keys(GetOr(o.val, k, <<>>)) \subseteq fks(k)
                   /\ \A f \in fks(k) :
                        same(GetOr(GetOr(o.val, k, <<>>), f, <<>>),
                             [i \in 1..Len(x.srcs) |-> GetOr(sub(i, k), f, <<>>)])>> >>)

(* injection of dependency versions *)
CheckInject(e) ==
  LET x == e.in  o == e.out IN
  IF ~o.ok THEN {"injects-without-error"}
  ELSE Failed(e, <<
    <<"abi-properties", o.val.sup = x.sup \o AbiProps(Installed(x.inst), Requests(x.env))>>,
    <<"abi-namespace-last", o.val.ns = Append(x.ns, AbiNs)>> >>)

Verdict(e) ==
  (CASE e.op = "api" -> CheckApi(e)
     [] e.op = "sfs" -> CheckSfs(e)
     [] e.op = "filter" -> CheckFilter(e)
     [] e.op = "sortp" -> CheckSortProps(e)
     [] e.op = "sortd" -> CheckSortDescs(e)
     [] e.op = "agg" -> CheckAgg(e)
     [] e.op = "inject" -> CheckInject(e))
  \cup Failed(e, << <<"inputs-unchanged", e.mut = <<>> >>, <<"repeatable", e.rep>> >>)

Init == sess \in 1..Len(Trace) /\ posn = 0
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET bad == Verdict(Trace[sess].ev[posn + 1])
           IN bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn>>
=============================================================================
