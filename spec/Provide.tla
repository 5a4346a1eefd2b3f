------------------------------ MODULE Provide ------------------------------
(* Providers of properties: which of them are asked, what is made of their
   answers, validation of a variant, and recording of ahead-of-time properties.

   A plugin is [loads, aot, all, sup]; all and sup are its answers
   [ok |-> FALSE] (failure or not an answer at all) or [ok |-> TRUE, v |-> feats]
   with feats a sequence of <<name, values, multi>>.
   plug: namespace -> plugin; marks: text of a marker -> "t", "f" or "bad".
   opt: [mode |-> "all" | "none" | "some", sel |-> namespaces]. *)
EXTENDS Meta

Everything == [mode |-> "all", sel |-> <<>>]
NoFilter == [has |-> FALSE, v |-> {}]
Only(S) == [has |-> TRUE, v |-> S]

(* --- which providers are asked ----------------------------------------------- *)
FromMetadata(p, aot) == ~p.inst /\ (p.req = <<>> \/ ~aot)
OptOn(opt, n) == CASE opt.mode = "all" -> TRUE [] opt.mode = "none" -> FALSE [] OTHER -> n \in Range(opt.sel)
Reached(m, n, opt, only, aot) ==       \* the marker is looked at
  LET p == Get(m.provs, n) IN
  ~FromMetadata(p, aot) /\ (only.has => n \in only.v) /\ (p.opt => OptOn(opt, n))
Mark(marks, p) == IF p.enif.has THEN Get(marks, p.enif.v) ELSE "t"
Asked(m, opt, only, aot, marks) ==
  {n \in Keys(m.provs) : Reached(m, n, opt, only, aot) /\ Mark(marks, Get(m.provs, n)) = "t"}
MarksOk(m, opt, only, aot, marks) ==
  \A n \in Keys(m.provs) : Reached(m, n, opt, only, aot) => Mark(marks, Get(m.provs, n)) # "bad"

(* --- answers -------------------------------------------------------------------- *)
FeatOk(f) == IsName(f[1]) /\ Len(f[2]) > 0 /\ NoDup(f[2]) /\ \A i \in 1..Len(f[2]) : IsValue(f[2][i])
FeatNames(fs) == [i \in 1..Len(fs) |-> fs[i][1]]
AnswerOk(a) == a.ok /\ (\A i \in 1..Len(a.v) : FeatOk(a.v[i])) /\ NoDup(FeatNames(a.v))
StaticFeats(fs) == [i \in 1..Len(fs) |-> <<fs[i][1], fs[i][2], FALSE>>]
LoadOk(m, opt, only, aot, marks, plug) ==
  /\ MarksOk(m, opt, only, aot, marks)
  /\ \A n \in Asked(m, opt, only, aot, marks) : Get(plug, n).loads
(* what is known about every namespace: from the metadata unless a plugin is asked;
   which: "all" or "sup" *)
Configs(m, S, which, plug) ==
  LET fromMeta == Filter(m.static, LAMBDA s : s[1] \notin S /\ s[2] # <<>>)
      answers == [n \in S |-> IF which = "all" THEN Get(plug, n).all ELSE Get(plug, n).sup]
  IN [i \in 1..Len(fromMeta) |-> <<fromMeta[i][1], StaticFeats(fromMeta[i][2])>>]
     \o SetToSeqMap({n \in S : answers[n].v # <<>>}, LAMBDA n : answers[n].v)
ConfigsOk(S, which, plug) ==
  \A n \in S : LET a == IF which = "all" THEN Get(plug, n).all ELSE Get(plug, n).sup
               IN AnswerOk(a) /\ (which = "all" => a.v # <<>>)

(* --- validation of a variant ------------------------------------------------------- *)
ValuesIn(fs, f) == LET F == {i \in 1..Len(fs) : fs[i][1] = f} IN IF F = {} THEN {} ELSE Range(fs[CHOOSE i \in F : TRUE][2])
Judge(p, cfg) == IF ~HasKey(cfg, p[1]) THEN "unknown"
                 ELSE IF p[3] \in ValuesIn(Get(cfg, p[1]), p[2]) THEN "valid" ELSE "invalid"
Overfull(d, cfg) == {f \in FeaturesOf(d) :
   Cardinality(ValuesOf(d, f)) > 1 /\ HasKey(cfg, f[1])
   /\ \E i \in 1..Len(Get(cfg, f[1])) : Get(cfg, f[1])[i][1] = f[2] /\ ~Get(cfg, f[1])[i][3]}
ValidationSet(m, d, marks) == Asked(m, Everything, Only(NamespacesOf(d)), TRUE, marks)
ValidationRuns(m, d, marks, plug) ==
  /\ LoadOk(m, Everything, Only(NamespacesOf(d)), TRUE, marks, plug)
  /\ ConfigsOk(ValidationSet(m, d, marks), "all", plug)
ValidationCfg(m, d, marks, plug) == Configs(m, ValidationSet(m, d, marks), "all", plug)
AllValid(m, d, marks, plug) ==
  /\ ValidationRuns(m, d, marks, plug)
  /\ LET cfg == ValidationCfg(m, d, marks, plug)
     IN (\A i \in 1..Len(d) : Judge(d[i], cfg) = "valid") /\ Overfull(d, cfg) = {}

(* --- recording ahead-of-time properties ---------------------------------------------- *)
Built(m, d) == {n \in NamespacesOf(d) : HasKey(m.provs, n) /\ ~Get(m.provs, n).inst /\ Get(m.provs, n).req # <<>>}
RecordOk(m, d, marks, plug) ==
  LET B == Built(m, d) IN
  /\ LoadOk(m, Everything, Only(B), TRUE, marks, plug)
  /\ Asked(m, Everything, Only(B), TRUE, marks) = B
  /\ ConfigsOk(B, "sup", plug)
  /\ \A n \in B : Get(plug, n).aot /\ \A i \in 1..Len(Get(plug, n).sup.v) : ~Get(plug, n).sup.v[i][3]
  /\ \A i \in 1..Len(d) : d[i][1] \in B => d[i][3] \in ValuesIn(Get(plug, d[i][1]).sup.v, d[i][2])
RECURSIVE RecordAll(_, _, _)
RecordAll(m, S, plug) ==
  IF S = {} THEN m
  ELSE LET n == CHOOSE n \in S : TRUE
           fs == Get(plug, n).sup.v
           names == FeatNames(fs)
           old == GetOr(m.feat, n, <<>>)
       IN RecordAll([m EXCEPT !.static = PutKey(@, n, [i \in 1..Len(fs) |-> <<fs[i][1], fs[i][2]>>]),
                              !.feat = IF Len(fs) > 1 THEN PutKey(@, n, old \o Filter(names, LAMBDA f : f \notin Range(old))) ELSE @],
                    S \ {n}, plug)
(* metadata of the wheel of variant d, filed under label *)
DistInfo(m, d, label, plug) ==
  [RecordAll(m, Built(m, d), plug) EXCEPT !.variants = << <<label, d>> >>]
(* ahead-of-time providers the variant does not use are not recorded *)
Unrecorded(m, d) == {n \in Keys(m.provs) : ~Get(m.provs, n).inst /\ Get(m.provs, n).req # <<>>} \ Built(m, d)
=============================================================================
