-------------------------------- MODULE Meta --------------------------------
(* Variant metadata: which documents are accepted and what they mean, the
   serialized form, conversion between the forms, merging, and requirements.

   A document is a tagged tree: <<"s", text>>, <<"b", bool>>, <<"i", number>>,
   <<"z">> (null), <<"l", items>>, <<"d", <<<<key, tree>>, ...>>>>.
   Metadata is a record [ns, feat, prop, provs, static, variants] in which the
   mappings are sequences of <<key, value>> pairs.
   kind is "index" (variants.json), "dist" (a wheel's variant.json) or
   "pyproject" (the variant table of pyproject.toml). *)
EXTENDS Variant

(* --- trees ------------------------------------------------------------------ *)
DropKey(m, k) == Filter(m, LAMBDA p : p[1] # k)
Tag(t) == t[1]
IsS(t) == Tag(t) = "s"
IsB(t) == Tag(t) = "b"
IsL(t) == Tag(t) = "l"
IsD(t) == Tag(t) = "d"
Sub(t, k) == Get(t[2], k)
Has(t, k) == HasKey(t[2], k)
Items(t) == t[2]
(* all the values of a mapping / items of a list satisfy P *)
AllVals(t, P(_)) == \A i \in 1..Len(t[2]) : P(t[2][i][2])
AllKeys(t, P(_)) == \A i \in 1..Len(t[2]) : P(t[2][i][1])
AllItems(t, P(_)) == \A i \in 1..Len(t[2]) : P(t[2][i])
OnlyKeys(t, S) == AllKeys(t, LAMBDA k : k \in S)

(* --- texts --------------------------------------------------------------------- *)
Blank == {" ", "\t", "\n", "\r", "\f"}
WordChars == Lowers \cup Uppers \cup Digits \cup {"_", "."}
(* requirements and markers: text without white space other than spaces *)
IsLine(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \notin (Blank \ {" "})
RECURSIVE LTrim(_)
LTrim(s) == IF Len(s) > 0 /\ Chr(s, 1) \in Blank THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ Chr(s, Len(s)) \in Blank THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* an object reference: module, or module : attribute *)
IsObjRef(s) ==
  LET C == {i \in 1..Len(s) : Chr(s, i) = ":"} IN
  IF C = {} THEN IsOver(s, WordChars)
  ELSE /\ Cardinality(C) = 1
       /\ LET c == CHOOSE i \in C : TRUE
          IN IsOver(RTrim(SubSeq(s, 1, c - 1)), WordChars) /\ IsOver(LTrim(SubSeq(s, c + 1, Len(s))), WordChars)

(* --- acceptance -------------------------------------------------------------------- *)
ListOf(t, P(_)) == IsL(t) /\ AllItems(t, LAMBDA x : IsS(x) /\ P(x[2]))
NameList(t)  == ListOf(t, IsName)
ValueList(t) == ListOf(t, IsValue)
FeatTable(t) == IsD(t) /\ AllKeys(t, IsName) /\ AllVals(t, NameList)
(* namespace -> feature -> values *)
PropTable(t) == IsD(t) /\ AllKeys(t, IsName)
                /\ AllVals(t, LAMBDA u : IsD(u) /\ AllKeys(u, IsName) /\ AllVals(u, ValueList))
Opt(t, k, P(_)) == Has(t, k) => P(Sub(t, k))
PrioTable(t) == /\ IsD(t)
                /\ OnlyKeys(t, {"namespace", "feature", "property"})
                /\ Opt(t, "namespace", NameList) /\ Opt(t, "feature", FeatTable) /\ Opt(t, "property", PropTable)
NonEmptyIf(t) ==      \* install-time providers have requirements
  LET inst == IF Has(t, "install-time") THEN Sub(t, "install-time")[2] ELSE TRUE
  IN inst => Has(t, "requires") /\ Items(Sub(t, "requires")) # <<>>
ProvEntry(t) ==
  /\ IsD(t)
  /\ OnlyKeys(t, {"requires", "optional", "plugin-api", "enable-if", "install-time"})
  /\ Opt(t, "requires", LAMBDA u : ListOf(u, IsLine))
  /\ Opt(t, "optional", IsB) /\ Opt(t, "install-time", IsB)
  /\ Opt(t, "plugin-api", LAMBDA u : IF IsS(u) THEN IsObjRef(u[2]) ELSE Tag(u) = "z")
  /\ Opt(t, "enable-if", LAMBDA u : IF IsS(u) THEN IsLine(u[2]) ELSE Tag(u) = "z")
  /\ NonEmptyIf(t)
ProvTable(t) == IsD(t) /\ AllKeys(t, IsName) /\ AllVals(t, ProvEntry)

(* reading; only applied to parts found acceptable *)
RdList(t) == TLCEval([i \in 1..Len(Items(t)) |-> Items(t)[i][2]])
RdMap(t, F(_)) == TLCEval([i \in 1..Len(Items(t)) |-> <<Items(t)[i][1], F(Items(t)[i][2])>>])
RdFeat(t) == RdMap(t, RdList)
(* namespaces without features say nothing *)
RdProp(t) == Filter(RdMap(t, RdFeat), LAMBDA p : p[2] # <<>>)
Dflt(t, k, F(_), d) == IF Has(t, k) THEN F(Sub(t, k)) ELSE d
NoText == [has |-> FALSE, v |-> ""]
RdText(t) == IF IsS(t) THEN [has |-> TRUE, v |-> t[2]] ELSE NoText
RdProv(t) == [req |-> Dflt(t, "requires", RdList, <<>>),
              opt |-> Dflt(t, "optional", LAMBDA u : u[2], FALSE),
              inst |-> Dflt(t, "install-time", LAMBDA u : u[2], TRUE),
              api |-> Dflt(t, "plugin-api", RdText, NoText),
              enif |-> Dflt(t, "enable-if", RdText, NoText)]
RdDesc(t) == Canon(Flat([i \in 1..Len(Items(t)) |->
   LET n == Items(t)[i][1]  fs == Items(Items(t)[i][2]) IN
   Flat([j \in 1..Len(fs) |-> [k \in 1..Len(Items(fs[j][2])) |-> <<n, fs[j][1], Items(fs[j][2])[k][2]>>]])]))

(* names that come without a value denote nothing and are not looked at *)
DescTable(t) ==
  /\ IsD(t)
  /\ AllVals(t, LAMBDA u : IsD(u) /\ AllVals(u, LAMBDA v : ValueList(v) /\ NoDup(RdList(v))))
  /\ \A i \in 1..Len(t[2]) : LET u == t[2][i][2] IN
       \A j \in 1..Len(u[2]) : Items(u[2][j][2]) # <<>> => IsName(t[2][i][1]) /\ IsName(u[2][j][1])
VarTable(t) ==
  /\ IsD(t) /\ AllKeys(t, IsLabel) /\ AllVals(t, DescTable)
  /\ \A i \in 1..Len(Items(t)) : (Items(t)[i][1] = "null") = (RdDesc(Items(t)[i][2]) = Null)

None == <<"d", <<>> >>
Read(t) == LET p == IF Has(t, "default-priorities") THEN Sub(t, "default-priorities") ELSE None IN
  [ns |-> Dflt(p, "namespace", RdList, <<>>), feat |-> Dflt(p, "feature", RdFeat, <<>>),
   prop |-> Dflt(p, "property", RdProp, <<>>),
   provs |-> Dflt(t, "providers", LAMBDA u : RdMap(u, RdProv), <<>>),
   static |-> Dflt(t, "static-properties", RdProp, <<>>),
   variants |-> Dflt(t, "variants", LAMBDA u : RdMap(u, RdDesc), <<>>)]
NeedsStatic(kind, p) == ~p.inst /\ (kind = "pyproject" => p.req = <<>>)
Consistent(kind, m) ==
  /\ Range(m.ns) = Keys(m.provs)
  /\ Keys(m.static) = {m.provs[i][1] : i \in {j \in 1..Len(m.provs) : NeedsStatic(kind, m.provs[j][2])}}
  /\ \A i \in 1..Len(m.static) : Len(m.static[i][2]) > 1 =>
       Keys(m.static[i][2]) \subseteq Range(GetOr(m.feat, m.static[i][1], <<>>))
(* the document without the parts that are only found in some kinds *)
WellFormed(kind, t) ==
  /\ IsD(t)
  /\ Opt(t, "default-priorities", PrioTable) /\ Opt(t, "providers", ProvTable) /\ Opt(t, "static-properties", PropTable)
  /\ kind \in {"index", "dist"} => Has(t, "variants") /\ VarTable(Sub(t, "variants"))
Table(kind, t) == IF kind # "pyproject" THEN t
                  ELSE IF ~Has(t, "variant") THEN None
                  ELSE IF ~IsD(Sub(t, "variant")) THEN Sub(t, "variant")
                  ELSE <<"d", DropKey(Sub(t, "variant")[2], "variants")>>    \* has no meaning here
(* expected: label demanded of a wheel's file, [has |-> FALSE, v |-> ""] if any is fine *)
Accepted(kind, t, expected) ==
  /\ IsD(t)
  /\ LET u == Table(kind, t) IN
     /\ WellFormed(kind, u)
     /\ LET m == Read(u) IN
        /\ Consistent(kind, m)
        /\ kind = "dist" => Len(m.variants) = 1 /\ (expected.has => m.variants[1][1] = expected.v)
Parse(kind, t) == LET m == Read(Table(kind, t)) IN IF kind = "pyproject" THEN [m EXCEPT !.variants = <<>>] ELSE m

(* --- equality: mappings have no order ------------------------------------------------ *)
Fn(m) == TLCEval(MapFn(m))
Fn2(m) == TLCEval([k \in Keys(m) |-> Fn(Get(m, k))])
Norm(m) == [ns |-> m.ns, feat |-> Fn(m.feat), prop |-> Fn2(m.prop), provs |-> Fn(m.provs),
            static |-> Fn2(m.static), variants |-> Fn(m.variants)]
SameMeta(a, b) == Norm(a) = Norm(b)
Common(m) == [m EXCEPT !.variants = <<>>]

(* --- writing --------------------------------------------------------------------------- *)
WrS(s) == <<"s", s>>
WrList(l) == <<"l", [i \in 1..Len(l) |-> WrS(l[i])]>>
WrMap(m, F(_)) == <<"d", [i \in 1..Len(m) |-> <<m[i][1], F(m[i][2])>>]>>
WrFeat(m) == WrMap(m, WrList)
WrProp(m) == WrMap(m, WrFeat)
Entry(c, k, t) == IF c THEN << <<k, t>> >> ELSE <<>>
WrProv(p) == <<"d", Entry(p.req # <<>>, "requires", WrList(p.req))
                    \o Entry(p.enif.has, "enable-if", WrS(p.enif.v))
                    \o Entry(p.opt, "optional", <<"b", TRUE>>)
                    \o Entry(p.api.has, "plugin-api", WrS(p.api.v))
                    \o Entry(~p.inst, "install-time", <<"b", FALSE>>)>>
RECURSIVE WrDescFrom(_, _)
WrDescFrom(d, ns) ==
  IF ns = <<>> THEN <<>>
  ELSE LET n == Head(ns)
           mine == Filter(d, LAMBDA p : p[1] = n)
           fs == Dedup([i \in 1..Len(mine) |-> mine[i][2]])
       IN << <<n, <<"d", [j \in 1..Len(fs) |->
               <<fs[j], WrList(LET vs == Filter(mine, LAMBDA p : p[2] = fs[j]) IN [k \in 1..Len(vs) |-> vs[k][3]])>>]>> >> >>
          \o WrDescFrom(d, Tail(ns))
WrDesc(d) == <<"d", WrDescFrom(d, Dedup([i \in 1..Len(d) |-> d[i][1]]))>>
WrTable(m, withvars) ==
  <<"d", << <<"default-priorities", <<"d", << <<"namespace", WrList(m.ns)>> >>
                \o Entry(m.feat # <<>>, "feature", WrFeat(m.feat))
                \o Entry(m.prop # <<>>, "property", WrProp(m.prop))>> >>,
            <<"providers", WrMap(m.provs, WrProv)>> >>
         \o Entry(m.static # <<>>, "static-properties", WrProp(m.static))
         \o Entry(withvars, "variants", WrMap(m.variants, WrDesc))>>
Write(kind, m) == IF kind = "pyproject" THEN <<"d", << <<"variant", WrTable(m, FALSE)>> >> >> ELSE WrTable(m, TRUE)

(* --- merging --------------------------------------------------------------------------- *)
CanMerge(a, b) ==
  /\ SameMeta(Common(a), Common(b))
  /\ \A l \in Keys(a.variants) \cap Keys(b.variants) : Get(a.variants, l) = Get(b.variants, l)
Merge(a, b) == [a EXCEPT !.variants = @ \o Filter(b.variants, LAMBDA v : v[1] \notin Keys(a.variants))]

(* --- requirements ------------------------------------------------------------------------ *)
Requires(m, nss, aot) ==
  UNION {Range(Get(m.provs, n).req) : n \in {k \in nss : Get(m.provs, k).inst \/ aot}}
Declared(m, nss) == nss \subseteq Keys(m.provs)
ReqChars == WordChars \cup {"-"}
RECURSIVE ReqName(_, _)
ReqName(s, i) == IF i > Len(s) \/ Chr(s, i) \notin ReqChars THEN ""
                 ELSE (IF Chr(s, i) = "-" THEN "_" ELSE Chr(s, i)) \o ReqName(s, i + 1)
RECURSIVE Blanks(_, _)
Blanks(s, i) == IF i <= Len(s) /\ Chr(s, i) = " " THEN Blanks(s, i + 1) ELSE i
ObjectRef(p) == IF p.api.has THEN p.api.v ELSE ReqName(p.req[1], Blanks(p.req[1], 1))

(* --- direct changes of an object -------------------------------------------------------- *)
PutKey(m, k, v) == IF HasKey(m, k) THEN TLCEval([i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]]) ELSE Append(m, <<k, v>>)
Put2(m, k, f, v) == PutKey(m, k, PutKey(GetOr(m, k, <<>>), f, v))
Edit(m, e) ==
  CASE e.what = "ns-append"     -> [m EXCEPT !.ns = Append(@, e.v)]
    [] e.what = "ns-clear"      -> [m EXCEPT !.ns = <<>>]
    [] e.what = "feat-append"   -> [m EXCEPT !.feat = PutKey(@, e.n, Append(Get(@, e.n), e.v))]
    [] e.what = "feat-set"      -> [m EXCEPT !.feat = PutKey(@, e.n, <<e.v>>)]
    [] e.what = "feat-pop"      -> [m EXCEPT !.feat = DropKey(@, e.n)]
    [] e.what = "prop-append"   -> [m EXCEPT !.prop = Put2(@, e.n, e.f, Append(Get(Get(@, e.n), e.f), e.v))]
    [] e.what = "prop-set"      -> [m EXCEPT !.prop = Put2(@, e.n, e.f, <<e.v>>)]
    [] e.what = "prop-pop"      -> [m EXCEPT !.prop = PutKey(@, e.n, DropKey(Get(@, e.n), e.f))]
    [] e.what = "static-append" -> [m EXCEPT !.static = Put2(@, e.n, e.f, Append(Get(Get(@, e.n), e.f), e.v))]
    [] e.what = "static-set"    -> [m EXCEPT !.static = Put2(@, e.n, e.f, <<e.v>>)]
    [] e.what = "static-pop"    -> [m EXCEPT !.static = DropKey(@, e.n)]
    [] e.what = "req-append"    -> [m EXCEPT !.provs = PutKey(@, e.n, [Get(@, e.n) EXCEPT !.req = Append(@, e.v)])]
    [] e.what = "prov-opt"      -> [m EXCEPT !.provs = PutKey(@, e.n, [Get(@, e.n) EXCEPT !.opt = ~@])]
    [] e.what = "prov-api"      -> [m EXCEPT !.provs = PutKey(@, e.n, [Get(@, e.n) EXCEPT !.api = [has |-> TRUE, v |-> e.v]])]
    [] e.what = "prov-enif"     -> [m EXCEPT !.provs = PutKey(@, e.n, [Get(@, e.n) EXCEPT !.enif = [has |-> TRUE, v |-> e.v]])]
    [] e.what = "prov-pop"      -> [m EXCEPT !.provs = DropKey(@, e.n)]
    [] e.what = "var-put"       -> [m EXCEPT !.variants = PutKey(@, e.n, e.d)]
    [] e.what = "var-pop"       -> [m EXCEPT !.variants = DropKey(@, e.n)]
(* whether the change can be made (the thing it changes exists) *)
Has2(m, k, f) == HasKey(m, k) /\ HasKey(Get(m, k), f)
Editable(m, e) ==
  CASE e.what \in {"feat-append", "feat-pop"} -> HasKey(m.feat, e.n)
    [] e.what \in {"prop-append", "prop-pop"} -> Has2(m.prop, e.n, e.f)
    [] e.what = "static-append" -> Has2(m.static, e.n, e.f)
    [] e.what = "static-pop" -> HasKey(m.static, e.n)
    [] e.what \in {"req-append", "prov-opt", "prov-api", "prov-enif", "prov-pop"} -> HasKey(m.provs, e.n)
    [] e.what = "var-pop" -> HasKey(m.variants, e.n)
    [] OTHER -> TRUE
=============================================================================
