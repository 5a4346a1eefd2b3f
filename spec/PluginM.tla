-------------------------------- MODULE PluginM --------------------------------
(* Plugin loaders as a transition system.  Plugins change between queries, loaders
   are entered, queried and left in any order; answers are remembered.

   A plugin behaves as one of "v1", "v2" (two different answers), "fail" (its
   answers fail) or "gone" (it cannot be loaded).  A loader has an interpreter and
   a set of plugins.  hist is the sequence of operations with their outcomes. *)
EXTENDS Strings
CONSTANTS Plugs, Interps, Loaders, LoaderPlugs(_), LoaderInterp(_), Behaviours
VARIABLES beh,      \* interpreter -> plugin -> behaviour
          mem,      \* query -> answer, for the queries remembered
          inside,   \* loaders entered
          hist, truth   \* truth: answer to every query remembered when it was executed
pvars == <<beh, mem, inside, hist, truth>>
Kinds == {"ns", "all", "sup"}
Query(l, k) == <<LoaderInterp(l), LoaderPlugs(l), k>>
Works(q) == \A p \in q[2] : LET b == beh[q[1]][p] IN b # "gone" /\ (q[3] # "ns" => b # "fail")
Answer(q) == [p \in q[2] |-> IF q[3] = "ns" THEN "ns" ELSE beh[q[1]][p]]
(* the outcome of asking: [ok, ran, a] *)
Asking(q) == IF q[2] = {} THEN [ok |-> TRUE, ran |-> FALSE, a |-> Answer(q)]
             ELSE IF q \in DOMAIN mem THEN [ok |-> TRUE, ran |-> FALSE, a |-> mem[q]]
             ELSE IF Works(q) THEN [ok |-> TRUE, ran |-> TRUE, a |-> Answer(q)]
             ELSE [ok |-> FALSE, ran |-> FALSE, a |-> Answer(q)]
Learn(q, r) == IF r.ran THEN /\ mem' = [x \in DOMAIN mem \cup {q} |-> IF x = q THEN r.a ELSE mem[x]]
                             /\ truth' = [x \in DOMAIN truth \cup {q} |-> IF x = q THEN Answer(q) ELSE truth[x]]
               ELSE UNCHANGED <<mem, truth>>
AsSeq(f) == SetToSeqMap(DOMAIN f, LAMBDA p : f[p])
Log(op, ok, ran, a) == hist' = Append(hist, [op |-> op, ok |-> ok, ran |-> ran, a |-> AsSeq(a)])
Nothing == [p \in {} |-> ""]

Set(i, p, b) == /\ beh[i][p] # b
                /\ beh' = [beh EXCEPT ![i][p] = b]
                /\ Log([what |-> "set", i |-> i, p |-> p, b |-> b], TRUE, FALSE, Nothing)
                /\ UNCHANGED <<mem, inside, truth>>
Enter(l) ==
  LET r == Asking(Query(l, "ns")) IN
  IF l \in inside THEN Log([what |-> "enter", l |-> l], FALSE, FALSE, Nothing) /\ UNCHANGED <<beh, mem, inside, truth>>
  ELSE /\ Learn(Query(l, "ns"), r)
       /\ inside' = IF r.ok THEN inside \cup {l} ELSE inside
       /\ Log([what |-> "enter", l |-> l], r.ok, r.ran, Nothing)
       /\ UNCHANGED beh
Ask(l, k) ==
  LET r == Asking(Query(l, k)) IN
  IF l \notin inside THEN Log([what |-> "query", l |-> l, k |-> k], FALSE, FALSE, Nothing) /\ UNCHANGED <<beh, mem, inside, truth>>
  ELSE /\ Learn(Query(l, k), r)
       /\ Log([what |-> "query", l |-> l, k |-> k], r.ok, r.ran, IF r.ok THEN r.a ELSE Nothing)
       /\ UNCHANGED <<beh, inside>>
Leave(l) == /\ inside' = inside \ {l}
            /\ Log([what |-> "leave", l |-> l], l \in inside, FALSE, Nothing)
            /\ UNCHANGED <<beh, mem, truth>>

(* --- properties ------------------------------------------------------------------- *)
Last == hist[Len(hist)]
(* what is remembered is what the plugins answered when they were asked that *)
InvTruth == mem = truth
(* nothing is run twice with success, and failures are not remembered *)
InvOnce == \A i, j \in 1..Len(hist) : i < j /\ hist[i].ran /\ hist[j].ran =>
   LET a == hist[i].op  b == hist[j].op IN
   a.what # b.what \/ Query(a.l, IF a.what = "enter" THEN "ns" ELSE a.k) # Query(b.l, IF b.what = "enter" THEN "ns" ELSE b.k)
(* an answer covers every plugin of the loader, or there is none *)
InvWhole == hist # <<>> /\ Last.op.what = "query" =>
   IF Last.ok THEN {Last.a[i][1] : i \in 1..Len(Last.a)} = LoaderPlugs(Last.op.l) ELSE Last.a = <<>>
(* the plugins answer only to loaders that were entered *)
InvInside == hist # <<>> /\ Last.op.what = "query" /\ Last.ok => Last.op.l \in inside
(* no answer contradicts an earlier one to the same question *)
InvStable == \A i, j \in 1..Len(hist) : i < j /\ hist[i].ok /\ hist[j].ok /\ hist[i].op.what = "query" /\ hist[j].op.what = "query"
   /\ Query(hist[i].op.l, hist[i].op.k) = Query(hist[j].op.l, hist[j].op.k) => hist[i].a = hist[j].a
(* a failing query leaves everything as it was *)
StepFailure == [][hist' # hist /\ ~hist'[Len(hist')].ok => mem' = mem /\ inside' = inside /\ beh' = beh]_pvars
=============================================================================
