-------------------------------- MODULE Plugin --------------------------------
(* Loading and querying of provider plugins: what is executed, what is remembered
   and what is answered.

   A plugin of a given interpreter behaves as [loads, ns, aot, all, sup] (see
   Provide; ns is the namespace it reports, "" if that is not even text).
   A query is [i |-> interpreter, apis |-> object references, k |-> "ns", "all" or
   "sup", fixed |-> BOOLEAN].  The state s is a record
     beh   : key -> interpreter -> behaviour, as of now
     keyof : object reference -> key
     mem   : sequence of <<query, answer>>, the answers obtained so far
     maybe : the same for answers that turned out to be unusable afterwards;
             whether these are remembered is left open
     ld    : loader -> [in, nss, static, i], nss a sequence of <<reference, namespace>>
   and obs, the calls observed during a step, is key -> [load, all, sup]. *)
EXTENDS Provide

Start(keyof, beh) == [keyof |-> keyof, beh |-> beh, mem |-> <<>>, maybe |-> <<>>, ld |-> <<>>]
Behaves(s, api, i) == Get(Get(s.beh, Get(s.keyof, api)), i)
Failure == [ok |-> FALSE]
Success(v) == [ok |-> TRUE, v |-> v]

(* what asking the plugins now would give *)
Execute(s, q) ==
  IF q.i = "broken" THEN Failure
  ELSE LET ps == TLCEval([j \in 1..Len(q.apis) |-> Behaves(s, q.apis[j], q.i)])
           ans(p) == IF q.k = "all" THEN p.all ELSE p.sup
       IN IF \E j \in 1..Len(ps) : ~ps[j].loads \/ (q.fixed /\ ~ps[j].aot) THEN Failure
          ELSE IF q.k = "ns" THEN Success([j \in 1..Len(ps) |-> <<q.apis[j], ps[j].ns>>])
          ELSE IF \E j \in 1..Len(ps) : ~ans(ps[j]).ok THEN Failure
          ELSE Success([j \in 1..Len(ps) |-> <<q.apis[j], ans(ps[j]).v>>])
Count(s, obs, api, k) == LET o == Get(obs, Get(s.keyof, api)) IN CASE k = "all" -> o.all [] k = "sup" -> o.sup [] OTHER -> o.load
NotRun(s, q, obs) == \A j \in 1..Len(q.apis) : Count(s, obs, q.apis[j], q.k) = 0
(* asking: [s, a, fresh] *)
Ask(s, q, obs) ==
  IF q.apis = <<>> THEN [s |-> s, a |-> Success(<<>>), fresh |-> <<>>]
  ELSE IF HasKey(s.mem, q) THEN [s |-> s, a |-> Success(Get(s.mem, q)), fresh |-> <<>>]
  ELSE IF HasKey(s.maybe, q) /\ NotRun(s, q, obs) THEN [s |-> s, a |-> Success(Get(s.maybe, q)), fresh |-> <<>>]
  ELSE LET a == TLCEval(Execute(s, q)) IN
       [s |-> IF a.ok THEN [s EXCEPT !.mem = PutKey(@, q, a.v), !.maybe = DropKey(@, q)] ELSE s,
        a |-> a, fresh |-> << [q |-> q, ok |-> a.ok] >>]
(* an answer that is of no use *)
Spoil(s, q) == IF HasKey(s.mem, q)
               THEN [s EXCEPT !.mem = DropKey(@, q), !.maybe = PutKey(@, q, Get(s.mem, q))] ELSE s

(* --- loaders: what they load -------------------------------------------------- *)
(* [kind |-> "list", apis, bad, i], or [kind |-> "pkg", m, opt, only, aot, marks, refs, i] *)
ApisOf(c) == IF c.kind = "list" THEN c.apis
             ELSE LET S == TLCEval(Asked(c.m, c.opt, c.only, c.aot, c.marks))
                      ns == Filter([i \in 1..Len(c.m.provs) |-> c.m.provs[i][1]], LAMBDA n : n \in S)
                  IN TLCEval([i \in 1..Len(ns) |-> Get(c.refs, ns[i])])
Startable(c) == IF c.kind = "list" THEN ~c.bad ELSE MarksOk(c.m, c.opt, c.only, c.aot, c.marks)
StaticOf(c) == IF c.kind = "list" THEN <<>> ELSE c.m.static
NsOk(nss) == /\ \A i \in 1..Len(nss) : IsName(nss[i][2])
             /\ \A i, j \in 1..Len(nss) : nss[i][1] # nss[j][1] => nss[i][2] # nss[j][2]
(* each step gives [s, ok, v, fresh] *)
Result(s, ok, v, fresh) == [s |-> s, ok |-> ok, v |-> v, fresh |-> fresh]
Entered(s, l) == HasKey(s.ld, l) /\ Get(s.ld, l).in
Enter(s, l, c, obs) ==
  IF Entered(s, l) \/ ~Startable(c) THEN Result(s, FALSE, <<>>, <<>>)
  ELSE LET q == [i |-> c.i, apis |-> ApisOf(c), k |-> "ns", fixed |-> FALSE]
           r == TLCEval(Ask(s, q, obs)) IN
       IF ~r.a.ok THEN Result(r.s, FALSE, <<>>, r.fresh)
       ELSE IF ~NsOk(r.a.v) THEN Result(Spoil(r.s, q), FALSE, <<>>, r.fresh)
       ELSE Result([r.s EXCEPT !.ld = PutKey(@, l, [in |-> TRUE, nss |-> Dedup(r.a.v), static |-> StaticOf(c), i |-> c.i])],
                   TRUE, <<>>, r.fresh)
Leave(s, l) ==
  IF ~Entered(s, l) THEN Result(s, FALSE, <<>>, <<>>)
  ELSE Result([s EXCEPT !.ld = PutKey(@, l, [Get(@, l) EXCEPT !.in = FALSE])], TRUE, <<>>, <<>>)
UsableAnswer(k, v) == \A j \in 1..Len(v) : AnswerOk(Success(v[j][2])) /\ (k = "all" => v[j][2] # <<>>)
(* the answer of a query: namespace -> features *)
Query(s, l, k, fixed, obs) ==
  IF ~Entered(s, l) THEN Result(s, FALSE, <<>>, <<>>)
  ELSE LET o == Get(s.ld, l)
           q == [i |-> o.i, apis |-> [j \in 1..Len(o.nss) |-> o.nss[j][1]], k |-> k, fixed |-> fixed]
           r == TLCEval(Ask(s, q, obs))
           rec == Filter(o.static, LAMBDA p : p[2] # <<>> /\ p[1] \notin Range([j \in 1..Len(o.nss) |-> o.nss[j][2]])) IN
       IF ~r.a.ok THEN Result(r.s, FALSE, <<>>, r.fresh)
       ELSE IF ~UsableAnswer(k, r.a.v) THEN Result(Spoil(r.s, q), FALSE, <<>>, r.fresh)
       ELSE Result(r.s, TRUE,
                   [j \in 1..Len(rec) |-> <<rec[j][1], StaticFeats(rec[j][2])>>]
                   \o LET some == Filter(r.a.v, LAMBDA p : p[2] # <<>>)
                      IN [j \in 1..Len(some) |-> <<Get(o.nss, some[j][1]), some[j][2]>>],
                   r.fresh)
(* a loader entered, queried and left at once *)
Once(s, c, k, fixed, obs) ==
  LET r == TLCEval(Enter(s, "once", c, obs)) IN
  IF ~r.ok THEN r
  ELSE LET t == TLCEval(Query(r.s, "once", k, fixed, obs))
       IN [t EXCEPT !.s = Leave(t.s, "once").s, !.fresh = r.fresh \o t.fresh]

(* --- calls of plugins ------------------------------------------------------------- *)
NoneAsked(obs) == \A i \in 1..Len(obs) : LET o == obs[i][2] IN o.load + o.all + o.sup = 0
(* who may have run because of the queries executed *)
MayRun(s, fresh, key, k) == \E i \in 1..Len(fresh) :
  /\ \E j \in 1..Len(fresh[i].q.apis) : Get(s.keyof, fresh[i].q.apis[j]) = key
  /\ k = "load" \/ fresh[i].q.k = k
OnlyThose(s, fresh, obs) == \A i \in 1..Len(obs) : LET key == obs[i][1]  o == obs[i][2] IN
  /\ o.load > 0 => MayRun(s, fresh, key, "load")
  /\ o.all > 0 => MayRun(s, fresh, key, "all")
  /\ o.sup > 0 => MayRun(s, fresh, key, "sup")
AllThose(s, fresh, obs) == \A i \in 1..Len(fresh) : fresh[i].ok =>
  \A j \in 1..Len(fresh[i].q.apis) : /\ Count(s, obs, fresh[i].q.apis[j], "ns") > 0
                                     /\ Count(s, obs, fresh[i].q.apis[j], fresh[i].q.k) > 0
=============================================================================
