-------------------------------- MODULE Types --------------------------------
(* Values as the library is handed them, the types it declares, and which values
   are of a type.  A value is a record: t is its class; text has cp (code points),
   a container xs or kv (key/value pairs), a property or feature a (its parts).
   A type is a record k (its constructor) and of / key / val. *)
EXTENDS Text

(* classes and the classes derived from them *)
IsA(v, c) == v.t = c \/ (c = "str" /\ v.t = "strsub") \/ (c = "list" /\ v.t = "listsub") \/ (c = "dict" /\ v.t = "dictsub")
SeqClasses == {"list", "listsub", "tuple", "set", "frozenset", "gen", "deque"}
DictClasses == {"dict", "dictsub"}
IterClasses == SeqClasses \cup DictClasses \cup {"str", "strsub", "bytes"}
(* what iterating over a value gives *)
Items(v) ==
  CASE v.t \in SeqClasses -> v.xs
    [] v.t \in DictClasses -> [i \in 1..Len(v.kv) |-> v.kv[i][1]]
    [] v.t \in {"str", "strsub"} -> [i \in 1..Len(v.cp) |-> [t |-> "str", cp |-> <<v.cp[i]>>]]
    [] v.t = "bytes" -> [i \in 1..Len(v.cp) |-> [t |-> "int"]]
ProtoClasses == {"fcfg", "fcfgsub", "duck"}        \* everything with the attributes of a feature configuration

(* is the value itself acceptable, its contents aside? *)
Shallow(v, T) ==
  CASE T.k = "any" -> TRUE
    [] T.k \in {"listof", "list"} -> IsA(v, "list")
    [] T.k = "setof" -> v.t = "set"
    [] T.k \in {"dictof", "dict"} -> IsA(v, "dict")
    [] T.k \in {"iterof", "iter"} -> v.t \in IterClasses
    [] T.k = "str" -> IsA(v, "str")
    [] T.k = "proto" -> v.t \in ProtoClasses
    [] OTHER -> v.t = T.k                           \* other classes: exactly that class
(* what remains to be checked about its contents *)
Obligations(v, T) ==
  CASE T.k \in {"listof", "setof", "iterof"} -> LET I == Items(v) IN [i \in 1..Len(I) |-> <<I[i], T.of>>]
    [] T.k = "dictof" -> [i \in 1..Len(v.kv) |-> <<v.kv[i][1], T.key>>] \o [i \in 1..Len(v.kv) |-> <<v.kv[i][2], T.val>>]
    [] OTHER -> <<>>
RECURSIVE Conforms(_, _)
Conforms(v, T) ==
  Shallow(v, T) /\ LET O == TLCEval(Obligations(v, T)) IN \A i \in 1..Len(O) : Conforms(O[i][1], O[i][2])

TAny == [k |-> "any"]
TStr == [k |-> "str"]
ListOf(T) == [k |-> "listof", of |-> T]
IterOf(T) == [k |-> "iterof", of |-> T]
DictOf(K, V) == [k |-> "dictof", key |-> K, val |-> V]
Cls(c) == [k |-> c]
TNames == ListOf(TStr)
TFeatPrio == DictOf(TStr, ListOf(TStr))
TPropPrio == DictOf(TStr, DictOf(TStr, ListOf(TStr)))

(* --- models: an object exists only with contents of the declared form --------- *)
CpsOf(v) == [i \in 1..Len(v.xs) |-> v.xs[i].cp]
NameVal(v) == Conforms(v, TStr) /\ NameTxt(v.cp)
(* the values of a feature: at least one, well formed, no two the same *)
ValuesVal(v) == /\ Conforms(v, TNames)
                /\ Len(v.xs) >= 1 /\ NoDup(CpsOf(v))
                /\ \A i \in 1..Len(v.xs) : ValueTxt(v.xs[i].cp)
FcfgOk(a) == NameVal(a[1]) /\ ValuesVal(a[2]) /\ Conforms(a[3], Cls("bool"))
PcfgOk(a) == /\ NameVal(a[1])
             /\ Conforms(a[2], ListOf(Cls("fcfg")))
             /\ Len(a[2].xs) >= 1 /\ NoDup([i \in 1..Len(a[2].xs) |-> a[2].xs[i].name])
KeysVal(v) == \A i \in 1..Len(v.kv) : NameTxt(v.kv[i][1].cp)
NsPrio(v) == Conforms(v, TNames) /\ \A i \in 1..Len(v.xs) : NameTxt(v.xs[i].cp)
FeatPrio(v) == Conforms(v, TFeatPrio) /\ KeysVal(v)
PropPrio(v) == Conforms(v, TPropPrio) /\ KeysVal(v)
VcfgOk(a) == NsPrio(a[1]) /\ FeatPrio(a[2]) /\ PropPrio(a[3])
(* a description is given any collection of properties *)
DescOk(a) == /\ Conforms(a[1], IterOf(Cls("prop")))
             /\ NoDup([i \in 1..Len(Items(a[1])) |-> Items(a[1])[i].a])
(* empty text is no collection of properties, nor has it other contents: undecided *)
DescOpen(a) == a[1].t \in {"str", "strsub", "bytes"} \cup DictClasses
ModelOk(m, a) == CASE m = "fcfg" -> FcfgOk(a)
                   [] m = "pcfg" -> PcfgOk(a)
                   [] m = "vcfg" -> VcfgOk(a)
                   [] m = "desc" -> DescOk(a)
(* arguments left out of a configuration are empty *)
NoArg == [t |-> "none"]
FilledIn(a) == << IF a[1] = NoArg THEN [t |-> "list", xs |-> <<>>] ELSE a[1],
                  IF a[2] = NoArg THEN [t |-> "dict", kv |-> <<>>] ELSE a[2],
                  IF a[3] = NoArg THEN [t |-> "dict", kv |-> <<>>] ELSE a[3] >>

(* the properties a provider configuration stands for, in priority order *)
RECURSIVE Flattened(_, _)
Flattened(ns, cfgs) ==
  IF cfgs = <<>> THEN <<>>
  ELSE [i \in 1..Len(cfgs[1].vals) |-> <<ns, cfgs[1].name, cfgs[1].vals[i]>>] \o Flattened(ns, Tail(cfgs))

(* --- properties and features as keys ------------------------------------------- *)
Alike(x, y) == x.t = y.t /\ x.a = y.a
SameFeature(x, y) == x.a[1] = y.a[1] /\ x.a[2] = y.a[2]

(* --- the resolver's entry points: types of their arguments ----------------------- *)
TDescs == ListOf(Cls("desc"))
TProps == ListOf(Cls("prop"))
Opt(T) == [k |-> "opt", of |-> T]
Signature(f) ==
  CASE f = "remove_duplicates" -> <<IterOf(Cls("desc"))>>
    [] f = "filter_variants_by_namespaces" -> <<IterOf(Cls("desc")), Opt(TNames)>>
    [] f = "filter_variants_by_features" -> <<IterOf(Cls("desc")), Opt(ListOf(Cls("feat")))>>
    [] f = "filter_variants_by_property" -> <<IterOf(Cls("desc")), TProps, Opt(TProps)>>
    [] f = "filter_variants" -> <<TDescs, TProps, Opt(TNames), Opt(ListOf(Cls("feat"))), Opt(TProps)>>
    [] f = "sort_variant_properties" -> <<TProps, TNames, Opt(TFeatPrio), Opt(TPropPrio)>>
    [] f = "sort_variants_descriptions" -> <<TDescs, TProps>>
    [] f = "get_namespace_priorities" -> <<Cls("prop"), TNames>>
    [] f = "get_feature_priorities" -> <<Cls("prop"), Opt(TFeatPrio)>>
    [] f = "get_property_priorities" -> <<Cls("prop"), Opt(TPropPrio)>>
    [] f = "sort_and_filter_supported_variants" ->
         <<TDescs, TProps, Opt(TNames), Opt(TFeatPrio), Opt(TPropPrio), Opt(TNames), Opt(ListOf(Cls("feat"))), Opt(TProps)>>
ArgOk(v, T) == IF T.k = "opt" THEN v = NoArg \/ Conforms(v, T.of) ELSE Conforms(v, T)
CallOk(f, a) == \A i \in 1..Len(a) : ArgOk(a[i], Signature(f)[i])
(* these never refuse arguments of the right types *)
Filters == {"remove_duplicates", "filter_variants_by_namespaces", "filter_variants_by_features",
            "filter_variants_by_property", "filter_variants"}
Ranks == {"get_namespace_priorities", "get_feature_priorities", "get_property_priorities"}
(* the rank of a property: its place in a list, or none (-1) *)
PlaceCp(s, xs) == LET I == {i \in 1..Len(xs) : xs[i].cp = s} IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
Under(s, d) == LET I == {i \in 1..Len(d.kv) : d.kv[i][1].cp = s} IN IF I = {} THEN NoArg ELSE d.kv[CHOOSE i \in I : TRUE][2]
Rank(f, a) ==
  LET ns == Cp(a[1].a[1])  ft == Cp(a[1].a[2])  vl == Cp(a[1].a[3]) IN
  IF a[2] = NoArg THEN -1
  ELSE IF f = "get_namespace_priorities" THEN PlaceCp(ns, a[2].xs)
  ELSE LET u == Under(ns, a[2]) IN
       IF u = NoArg THEN -1
       ELSE IF f = "get_feature_priorities" THEN PlaceCp(ft, u.xs)
       ELSE LET w == Under(ft, u) IN IF w = NoArg THEN -1 ELSE PlaceCp(vl, w.xs)
=============================================================================
