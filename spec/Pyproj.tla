-------------------------------- MODULE Pyproj --------------------------------
(* Editing the variant table of a pyproject.toml: update-pyproject-toml.

   The file is a tree as in module Meta.  plugs are the installed plugins: a
   sequence of [ns, api, loads, req], req being the requirement that its
   distribution stands for. *)
EXTENDS Meta
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  /\ Tag(a) = Tag(b)
  /\ CASE IsD(a) -> Keys(a[2]) = Keys(b[2]) /\ \A k \in Keys(a[2]) : SameTree(Get(a[2], k), Get(b[2], k))
       [] IsL(a) -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : SameTree(a[2][i], b[2][i])
       [] OTHER  -> a = b
SubOr(t, k, d) == IF Has(t, k) THEN Sub(t, k) ELSE d
PutSub(t, k, u) == <<"d", PutKey(t[2], k, u)>>
DropSub(t, k) == <<"d", DropKey(t[2], k)>>

(* the parts that are edited have the right shape *)
Shaped(t) ==
  /\ IsD(t)
  /\ Opt(t, "variant", LAMBDA v :
       /\ IsD(v)
       /\ Opt(v, "default-priorities", LAMBDA p : IsD(p) /\ Opt(p, "namespace", IsL))
       /\ Opt(v, "providers", LAMBDA p : IsD(p) /\ AllVals(p, IsD))
       /\ Opt(v, "static-properties", IsD))
VarOf(t) == SubOr(t, "variant", None)
NoList == <<"l", <<>> >>
PrioOf(v) == SubOr(v, "default-priorities", None)
RankOf(v) == SubOr(PrioOf(v), "namespace", NoList)
ProvsOf(v) == SubOr(v, "providers", None)
StaticOf(v) == SubOr(v, "static-properties", None)
SetRank(v, l) == PutSub(v, "default-priorities", PutSub(PrioOf(v), "namespace", l))

Delete(v, n) ==
  LET ranked == SetRank(v, <<"l", Filter(RankOf(v)[2], LAMBDA x : x # WrS(n))>>)
      p == PutSub(ranked, "providers", DropSub(ProvsOf(v), n))
  IN IF Has(v, "static-properties") THEN PutSub(p, "static-properties", DropSub(StaticOf(v), n)) ELSE p
Installed(plugs, n) == \E i \in 1..Len(plugs) : plugs[i].ns = n
PlugFor(plugs, n) == plugs[CHOOSE i \in 1..Len(plugs) : plugs[i].ns = n]
Add(v, n, plugs) ==
  LET q == PlugFor(plugs, n)
      ranked == IF WrS(n) \in Range(RankOf(v)[2]) THEN v ELSE SetRank(v, <<"l", Append(RankOf(v)[2], WrS(n))>>)
      old == SubOr(ProvsOf(v), n, None)
      entry == PutSub(old, "plugin-api", WrS(q.api))
      full == IF Has(old, "requires") THEN entry ELSE PutSub(entry, "requires", WrList(<<q.req>>))
  IN PutSub(ranked, "providers", PutSub(ProvsOf(ranked), n, full))
RECURSIVE DeleteAll(_, _)
DeleteAll(v, ns) == IF ns = <<>> THEN v ELSE DeleteAll(TLCEval(Delete(v, Head(ns))), Tail(ns))
RECURSIVE AddAll(_, _, _)
AddAll(v, ns, plugs) == IF ns = <<>> THEN v ELSE AddAll(TLCEval(Add(v, Head(ns), plugs)), Tail(ns), plugs)

(* plugins that cannot be loaded, or that share a namespace, are an error *)
Loadable(plugs) == /\ \A i \in 1..Len(plugs) : plugs[i].loads
                   /\ \A i, j \in 1..Len(plugs) : i # j => plugs[i].ns # plugs[j].ns
Possible(t, dels, adds, plugs) ==
  /\ dels # <<>> \/ adds # <<>>
  /\ Shaped(t) /\ Loadable(plugs)
  /\ \A i \in 1..Len(adds) : Installed(plugs, adds[i])
Edited(t, dels, adds, plugs) ==
  <<"d", PutKey(t[2], "variant", AddAll(DeleteAll(VarOf(t), dels), adds, plugs))>>

(* empty tables say nothing *)
DropIf(t, k, e) == IF IsD(t) /\ Has(t, k) /\ Sub(t, k) = e THEN DropSub(t, k) ELSE t
TidyPrio(v) == IF IsD(v) /\ Has(v, "default-priorities") THEN PutSub(v, "default-priorities", DropIf(PrioOf(v), "namespace", NoList)) ELSE v
TidyVar(v) == DropIf(DropIf(DropIf(TidyPrio(v), "default-priorities", None), "providers", None), "static-properties", None)
Tidy(t) == IF IsD(t) /\ Has(t, "variant") THEN DropIf(PutSub(t, "variant", TidyVar(VarOf(t))), "variant", None) ELSE t
SameFile(a, b) == SameTree(Tidy(a), Tidy(b))

ValidFile(t) == Accepted("pyproject", t, NoText)
InstallTimeOnly(t) == LET m == Parse("pyproject", t) IN \A i \in 1..Len(m.provs) : m.provs[i][2].inst

(* pieces of text with an owner [what, ns]: what must survive the edit *)
Survives(o, dels, adds, t) ==
  CASE o[1] = "other" -> TRUE
    [] o[1] = "api" -> o[2] \notin Range(dels) \cup Range(adds)      \* (its line is rewritten)
    [] o[1] \in {"prov", "static"} -> o[2] \notin Range(dels)
    [] o[1] = "rank" -> /\ \A i \in 1..Len(dels) : WrS(dels[i]) \notin Range(RankOf(VarOf(t))[2])
                        /\ \A i \in 1..Len(adds) : WrS(adds[i]) \in Range(RankOf(VarOf(t))[2])
    [] OTHER -> FALSE
RECURSIVE SubSeqFrom(_, _, _, _)
SubSeqFrom(a, i, b, j) == IF i > Len(a) THEN TRUE
                          ELSE IF j > Len(b) THEN FALSE
                          ELSE IF a[i] = b[j] THEN SubSeqFrom(a, i + 1, b, j + 1) ELSE SubSeqFrom(a, i, b, j + 1)
Kept(pieces, dels, adds, t, after, ordered) ==
  LET want == Filter(pieces, LAMBDA p : Survives(p[1], dels, adds, t))
  IN IF ~ordered THEN \A i \in 1..Len(want) : want[i][2] \in Range(after)
     ELSE SubSeqFrom([i \in 1..Len(want) |-> want[i][2]], 1, after, 1)
=============================================================================
