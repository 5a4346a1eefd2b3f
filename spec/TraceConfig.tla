------------------------------ MODULE TraceConfig ------------------------------
(* Recorded sessions in which configuration files come, change and go between
   queries.  The state of the session is the files at the four locations. *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn, disk
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}
(* want: [ok, v]; a refusal is any error *)
Judge(want, e, clauses) ==
  Failed(<< <<"error-reported", want.ok \/ ~e.out.ok>>, <<"no-error", ~want.ok \/ e.out.ok>> >>)
  \cup (IF want.ok /\ e.out.ok THEN Failed(clauses) ELSE {})
Same(a, v) == SaysSame([ns |-> a.ns, feat |-> a.feat, prop |-> Filter(a.prop, LAMBDA p : p[2] # <<>>)], v)

Flatten(n, fs) == Flat([i \in 1..Len(fs) |-> [j \in 1..Len(fs[i][2]) |-> <<n, fs[i][1], fs[i][2][j]>>]])
LabelsFor(vs, ds) == [i \in 1..Len(ds) |-> LET S == {j \in 1..Len(vs) : vs[j][2] = ds[i]} IN
                        IF S = {} THEN "null" ELSE vs[CHOOSE j \in S : \A k \in S : j >= k][1]]
Resolution(c, m) ==
  LET sup == TLCEval(Flat([i \in 1..Len(m.static) |-> Flatten(m.static[i][1], m.static[i][2])]))
      ds == [i \in 1..Len(m.variants) |-> m.variants[i][2]]
  IN LabelsFor(m.variants, Resolve(ds, sup, Priorities(c, m), <<>>, <<>>, <<>>, <<>>))

Verdict(s, e) ==
  LET x == e.in  now == InForce(s) IN
  CASE e.op \in {"begin", "set"} -> {}
    [] e.op = "get"  -> Judge(now, e, << <<"in-force", Same(e.out.v, now.v)>> >>)
    [] e.op = "file" -> Judge([ok |-> Present(s) # <<>>, v |-> 0], e, << <<"first-file", e.out.v = Present(s)[1]>> >>)
    [] e.op = "read" -> LET w == OfFile(x.file) IN Judge(w, e, << <<"file-read", Same(e.out.v, w.v)>> >>)
    [] e.op = "show" ->
         LET w == TLCEval(Shown(s, x.loc)) IN
         Judge(w, e, << <<"shown-is-configuration", ConfigOk(e.out.tree)>>,
                        <<"shown-equivalent", ConfigOk(e.out.tree) => SaysSame(CfgRead(e.out.tree), w.v)>>,
                        <<"shown-read-back", e.out.again.ok /\ Same(e.out.again.v, w.v)>> >>)
    [] e.op = "paths" ->
         Judge([ok |-> TRUE, v |-> 0], e,
               << <<"paths-in-order", [i \in 1..Len(e.out.v) |-> <<e.out.v[i][1], e.out.v[i][2]>>] = [i \in 1..4 |-> <<Locs[i], Get(x.dirs, Locs[i])>>]>>,
                  <<"paths-found", x.verbose => \A i \in 1..Len(e.out.v) : e.out.v[i][3] = Exists(Get(s, e.out.v[i][1]))>> >>)
    [] e.op = "resolve" ->
         LET m == Parse("index", x.doc) IN
         Judge(now, e, << <<"priorities-in-force", e.out.v = Resolution(now.v, m)>> >>)

Init == sess \in 1..Len(Trace) /\ posn = 0 /\ disk = [i \in 1..4 |-> <<Locs[i], <<"absent">> >>]
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET e == Trace[sess].ev[posn + 1]
               bad == Verdict(disk, e)
           IN /\ disk' = IF e.op = "set" THEN PutKey(disk, e.in.loc, e.in.file) ELSE disk
              /\ bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn, disk>>
=============================================================================
