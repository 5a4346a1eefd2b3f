------------------------------ MODULE Resolver ------------------------------
(* Variant resolution: which of the variants of an index can be installed, and
   in which order they are preferred.

   The module has three layers:
   - declarative properties of an answer (Sound, Complete, Ordered, ...), stated
     without reference to how the answer is computed;
   - the stages the implementation goes through (Dedup, FilterNs, FilterFeat,
     FilterProp, SortProps, SortDescs), each a pure operator;
   - module ResolverM adds a state machine that runs the stages as separate
     actions; its invariants relate the stages to the declarative layer. *)
EXTENDS Variant

-----------------------------------------------------------------------------
(* Priorities: aggregation of several sources, the earlier one winning. *)
AggList(lists) == Dedup(Flat(lists))
AggMapKeys(maps) == UNION {Keys(maps[i]) : i \in 1..Len(maps)}
AggFeat(maps, ns) == AggList([i \in 1..Len(maps) |-> GetOr(maps[i], ns, <<>>)])
AggProp(maps, ns, f) ==
  AggList([i \in 1..Len(maps) |-> GetOr(GetOr(maps[i], ns, <<>>), f, <<>>)])

-----------------------------------------------------------------------------
(* ABI dependencies.  inst: sequence of [name, ok, rel] (rel = <<major, minor,
   micro>> as text); env: the same plus [eq] for entries holding "==". *)
RECURSIVE CanonNameFrom(_, _, _)
CanonNameFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == LowerC(Chr(s, i)) IN
       IF c \in {"-", "_", "."}
       THEN CanonNameFrom(s, i + 1,
              IF i > 1 /\ Chr(s, i - 1) \in {"-", "_", "."} THEN acc ELSE acc \o "_")
       ELSE CanonNameFrom(s, i + 1, acc \o c)
CanonName(s) == CanonNameFrom(s, 1, "")

ValidPkg(e) == e.ok /\ IsName(CanonName(e.name))
AbiNames(inst, env) ==
  {CanonName(inst[i].name) : i \in {j \in 1..Len(inst) : ValidPkg(inst[j])}}
  \cup {CanonName(env[i].name) : i \in {j \in 1..Len(env) : ValidPkg(env[j])}}
(* the last valid entry of the environment, else the first valid distribution *)
AbiRel(inst, env, n) ==
  LET E == {j \in 1..Len(env) : ValidPkg(env[j]) /\ CanonName(env[j].name) = n}
      I == {j \in 1..Len(inst) : ValidPkg(inst[j]) /\ CanonName(inst[j].name) = n}
  IN IF E # {} THEN env[CHOOSE i \in E : \A j \in E : i >= j].rel
     ELSE inst[CHOOSE i \in I : \A j \in I : i <= j].rel
AbiNs == "abi_dependency"
AbiPropsOf(n, rel) ==
  << <<AbiNs, n, rel[1]>>,
     <<AbiNs, n, rel[1] \o "." \o rel[2]>>,
     <<AbiNs, n, rel[1] \o "." \o rel[2] \o "." \o rel[3]>> >>
AbiProps(inst, env) ==
  LET ns == SetToSortedStrings(AbiNames(inst, env))
  IN TLCEval(Flat([i \in 1..Len(ns) |-> AbiPropsOf(ns[i], AbiRel(inst, env, ns[i]))]))

-----------------------------------------------------------------------------
(* Stages *)
FilterNs(ds, forb) ==
  Filter(ds, LAMBDA d : NamespacesOf(d) \cap Range(forb) = {})
FilterFeat(ds, forb) ==
  Filter(ds, LAMBDA d : FeaturesOf(d) \cap Range(forb) = {})
Allowed(sup, forb) == Range(sup) \ Range(forb)
SupportedBy(d, allowed) ==
  \A f \in FeaturesOf(d) : \E v \in ValuesOf(d, f) : <<f[1], f[2], v>> \in allowed
FilterProp(ds, sup, forb) == Filter(ds, LAMBDA d : SupportedBy(d, Allowed(sup, forb)))
FilterAll(ds, sup, forbNs, forbFeat, forbProp) ==
  FilterProp(FilterFeat(FilterNs(Dedup(ds), forbNs), forbFeat), sup, forbProp)
WithNull(ds) == IF Null \in Range(ds) THEN ds ELSE Append(ds, Null)

(* prios: [ns |-> sequence, feat |-> map, prop |-> map of maps] *)
FeatPos(pr, p) == Pos(GetOr(pr.feat, p[1], <<>>), p[2])
ValPos(pr, p)  == Pos(GetOr(GetOr(pr.prop, p[1], <<>>), p[2], <<>>), p[3])
Unranked(sup, pr) == {sup[i][1] : i \in 1..Len(sup)} \ Range(pr.ns)
SortProps(sup, pr) ==
  LET first(p) == CHOOSE i \in 1..Len(sup) :
                     FeatOf(sup[i]) = FeatOf(p) /\ \A j \in 1..(i - 1) : FeatOf(sup[j]) # FeatOf(p)
      key(p) == <<Pos(pr.ns, p[1]), FeatPos(pr, p), first(p), ValPos(pr, p)>>
      ks == TLCEval([i \in 1..Len(sup) |-> <<key(sup[i]), sup[i]>>])
      st == StableSort(ks, LAMBDA a, b : NumLt(a[1], b[1]))
  IN TLCEval([i \in 1..Len(st) |-> st[i][2]])

(* rank of a description given the sorted supported properties *)
FeatOrder(sorted) == Dedup(TLCEval([i \in 1..Len(sorted) |-> FeatOf(sorted[i])]))
ValOrder(sorted, f) ==
  LET s == Filter(sorted, LAMBDA p : FeatOf(p) = f) IN TLCEval([i \in 1..Len(s) |-> s[i][3]])
Rank(d, fo, vo) ==
  TLCEval([i \in 1..Len(fo) |->
     LET ps == {Pos(vo[i], v) : v \in ValuesOf(d, fo[i])}
     IN IF ps = {} THEN INF ELSE CHOOSE m \in ps : \A x \in ps : m <= x])
(* every feature of d is known and has a supported value *)
Rankable(d, sorted) == SupportedBy(d, Range(sorted))
SortDescs(ds, sorted) ==
  LET fo == FeatOrder(sorted)
      vo == TLCEval([i \in 1..Len(fo) |-> ValOrder(sorted, fo[i])])
      ks == TLCEval([i \in 1..Len(ds) |-> <<Rank(ds[i], fo, vo), ds[i]>>])
      st == StableSort(ks, LAMBDA a, b : NumLt(a[1], b[1]))
  IN TLCEval([i \in 1..Len(st) |-> st[i][2]])

(* the whole pipeline; abi: properties injected for dependencies *)
Resolve(ds, sup, pr, abi, forbNs, forbFeat, forbProp) ==
  LET s2 == sup \o abi
      p2 == [pr EXCEPT !.ns = Append(@, AbiNs)]
  IN SortDescs(FilterAll(WithNull(ds), s2, forbNs, forbFeat, forbProp), SortProps(s2, p2))

-----------------------------------------------------------------------------
(* Declarative layer: properties of an answer `out` (a sequence of
   descriptions), independent of the stages above. *)
OfferOk(d, sup, forbNs, forbFeat, forbProp) ==
  /\ \A i \in 1..Len(d) : d[i][1] \notin Range(forbNs) /\ FeatOf(d[i]) \notin Range(forbFeat)
  /\ \A i \in 1..Len(d) : \E j \in 1..Len(d) :
        FeatOf(d[j]) = FeatOf(d[i]) /\ d[j] \in Range(sup) /\ d[j] \notin Range(forbProp)
Sound(out, ds, sup, fn, ff, fp) ==
  \A i \in 1..Len(out) : out[i] \in Range(ds) \cup {Null} /\ OfferOk(out[i], sup, fn, ff, fp)
Complete(out, ds, sup, fn, ff, fp) ==
  \A i \in 1..Len(ds) : OfferOk(ds[i], sup, fn, ff, fp) => ds[i] \in Range(out)
NullLast(out) == Len(out) > 0 /\ out[Len(out)] = Null

(* importance of features, from the priorities: <<ns rank, feature rank, order of
   appearance>>; preference among values of a feature likewise *)
FeatKey(f, sup, pr) ==
  <<Pos(pr.ns, f[1]), Pos(GetOr(pr.feat, f[1], <<>>), f[2]),
    CHOOSE i \in 1..Len(sup) : FeatOf(sup[i]) = f /\ \A j \in 1..(i - 1) : FeatOf(sup[j]) # f>>
ValKey(p, sup, pr) == <<ValPos(pr, p), Pos(sup, p)>>
BestVal(d, f, sup, pr) ==       \* best supported value of d for f, as a key
  LET S == {<<f[1], f[2], v>> : v \in ValuesOf(d, f)} \cap Range(sup)
      K == {ValKey(p, sup, pr) : p \in S}
  IN IF K = {} THEN <<INF, INF>> ELSE CHOOSE k \in K : \A x \in K : x = k \/ NumLt(k, x)
(* a is strictly preferred to b: on the most important feature where their best
   values differ, a's is better *)
Preferred(a, b, sup, pr) ==
  LET F == {f \in FeaturesOf(a) \cup FeaturesOf(b) :
              BestVal(a, f, sup, pr) # BestVal(b, f, sup, pr)}
  IN F # {} /\ LET f == CHOOSE f \in F : \A g \in F :
                          f = g \/ NumLt(FeatKey(f, sup, pr), FeatKey(g, sup, pr))
               IN NumLt(BestVal(a, f, sup, pr), BestVal(b, f, sup, pr))
Ordered(out, sup, pr) ==
  \A i, j \in 1..Len(out) : i < j => ~Preferred(out[j], out[i], sup, pr)
TiesStable(out, ds, sup, pr) ==
  \A i, j \in 1..Len(out) :
    (i < j /\ ~Preferred(out[i], out[j], sup, pr)) => Pos(WithNull(ds), out[i]) <= Pos(WithNull(ds), out[j])

=============================================================================
