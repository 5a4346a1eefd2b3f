------------------------------ MODULE IsolateM ------------------------------
(* The life of the environment in which make-variant asks the providers: created,
   filled with the requirements of the providers in use, asked for the validation
   and for what is recorded ahead of time, and removed; with a failure possible at
   every step.  Runs follow each other in one process.

   Providers: i (a plugin at install time), b (ahead-of-time, with a plugin),
   s (ahead-of-time, in the metadata); u is declared by nobody.
   A run is [iso, skip, null, fail, use, inside, host]: whether an environment is
   wanted, validation is skipped, the variant is the null variant, which step of
   the installer fails, the namespaces in use, and how the plugins behave in the
   environment and in the host (good: support what is asked for; other: support it
   among other things; refuse: do not support it; dead: do not load). *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES run, pc, env, log, files, hist
ivars == <<run, pc, env, log, files, hist>>
Plugged == {"i", "b"}
NoEnv == [live |-> FALSE, has |-> {}]
Wanted(r) == r.iso /\ ~r.skip /\ ~r.null     \* an environment is to be made
Checks(r) == ~r.skip /\ ~r.null
Place(r) == IF Wanted(r) THEN "env" ELSE "host"
How(r, n) == IF Place(r) = "host" THEN r.host ELSE IF n \in env.has THEN r.inside ELSE "dead"

Start(r) == /\ pc = "idle" /\ run' = r /\ log' = <<>> /\ pc' = (IF Wanted(r) THEN "create" ELSE IF Checks(r) THEN "validate" ELSE "record")
            /\ UNCHANGED <<env, files, hist>>
Create == /\ pc = "create"
          /\ IF run.fail = "create" THEN pc' = "failed" /\ UNCHANGED <<env, log>>
             ELSE pc' = "install" /\ env' = [live |-> TRUE, has |-> {}] /\ log' = Append(log, <<"enter", "">>)
          /\ UNCHANGED <<run, files, hist>>
Install == /\ pc = "install"
           /\ IF "u" \in run.use THEN pc' = "failed" /\ UNCHANGED <<env, log>>
              ELSE /\ log' = Append(log, <<"install", run.use \cap Plugged>>)
                   /\ IF run.fail = "install" THEN pc' = "failed" /\ UNCHANGED env
                      ELSE pc' = "validate" /\ env' = [env EXCEPT !.has = run.use \cap Plugged]
           /\ UNCHANGED <<run, files, hist>>
Ask(ns) == log' = log \o (IF ns = {} THEN <<>> ELSE << <<"ask", ns, Place(run)>> >>)
(* providers in use say whether they know the properties *)
Validate == /\ pc = "validate" /\ Ask(run.use \cap Plugged)
            /\ pc' = (IF "u" \notin run.use /\ \A n \in run.use \cap Plugged : How(run, n) \in {"good", "other"} THEN "record" ELSE "failed")
            /\ UNCHANGED <<run, env, files, hist>>
(* those asked ahead of time say what they support *)
Record == /\ pc = "record"
          /\ LET S == IF run.null THEN {} ELSE run.use \cap {"b"} IN
             /\ Ask(S)
             /\ pc' = (IF \A n \in S : How(run, n) \in {"good", "other"} THEN "write" ELSE "failed")
          /\ UNCHANGED <<run, env, files, hist>>
Leave == /\ pc \in {"write", "failed"} /\ env.live
         /\ env' = NoEnv /\ log' = Append(log, <<"exit", "">>)
         /\ UNCHANGED <<run, pc, files, hist>>
(* what was recorded for b tells who was asked *)
Recorded(r) == IF r.null \/ "b" \notin r.use THEN "" ELSE IF Place(r) = "env" THEN r.inside ELSE r.host
End == /\ pc \in {"write", "failed"} /\ ~env.live
       /\ files' = (IF pc = "write" THEN Append(files, Recorded(run)) ELSE files)
       /\ hist' = Append(hist, [run |-> run, ok |-> pc = "write", log |-> log])
       /\ pc' = "idle" /\ UNCHANGED <<run, env, log>>

(* --- what users rely on ------------------------------------------------------------ *)
InvNothingLeft == pc = "idle" => env = NoEnv
InvAskedWhereInstalled ==
  \A k \in 1..Len(log) : log[k][1] = "ask" =>
    IF log[k][3] = "host" THEN ~Wanted(run)
    ELSE /\ Wanted(run)
         /\ \E j \in 1..k : log[j][1] = "install" /\ log[k][2] \subseteq log[j][2]
         /\ \A j \in 1..k : log[j][1] # "exit"
InvOnlyNeeded == env.has \subseteq (run.use \cap Plugged)
InvOneEnvironment == Cardinality({k \in 1..Len(log) : log[k][1] = "enter"}) <= 1
InvAnswersFromEnvironment ==
  \A k \in 1..Len(hist) : LET h == hist[k] IN
    h.ok => /\ Checks(h.run) => "u" \notin h.run.use
            /\ (Wanted(h.run) /\ h.run.use \cap Plugged # {}) => h.run.inside \in {"good", "other"}
InvFailedWritesNothing == Len(files) = Cardinality({k \in 1..Len(hist) : hist[k].ok})
PropTerminates == (pc # "idle") ~> (pc = "idle")
=============================================================================
