-------------------------------- MODULE ConfigM --------------------------------
(* Finding the configuration as a transition system.  Files come, change and go;
   a query looks at the locations one after the other and opens the first file
   it sees, as the implementation does.

   files maps a location to "absent", "a", "b" (two valid configurations), "bad"
   (readable, but invalid) or "dir".  scan is the location being looked at, 0
   between queries.  hist records the operations with their outcomes. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES files, scan, asked, hist
cvars == <<files, scan, asked, hist>>
Locations == <<"LOCAL", "VIRTUALENV", "USER", "GLOBAL">>
N == Len(Locations)
States == {"absent", "a", "b", "bad", "dir"}
Valid == {"a", "b"}
Log(op, ok, v) == hist' = Append(hist, [op |-> op, ok |-> ok, v |-> v])

Set(l, c) == /\ scan = 0 /\ files[l] # c
             /\ files' = [files EXCEPT ![l] = c]
             /\ Log([what |-> "set", l |-> l, c |-> c], TRUE, "")
             /\ UNCHANGED <<scan, asked>>
Ask(k) == scan = 0 /\ scan' = 1 /\ asked' = k /\ UNCHANGED <<files, hist>>
Answer(c) == /\ scan' = 0 /\ asked' = ""
             /\ Log([what |-> asked], c \in Valid \cup {"absent"}, IF c \in Valid THEN c ELSE "")
             /\ UNCHANGED files
Look == /\ scan # 0
        /\ IF files[Locations[scan]] # "absent" THEN Answer(files[Locations[scan]])
           ELSE IF scan < N THEN scan' = scan + 1 /\ UNCHANGED <<files, asked, hist>>
           ELSE Answer("absent")
(* one location only *)
ShowAt(l) == /\ scan = 0
             /\ Log([what |-> "showat", l |-> l], files[l] \in Valid, IF files[l] \in Valid THEN files[l] ELSE "")
             /\ UNCHANGED <<files, scan, asked>>

(* --- properties -------------------------------------------------------------- *)
Last == hist[Len(hist)]
Answered == hist # <<>> /\ scan = 0 /\ Last.op.what \in {"get", "show", "resolve"}
Absent(i) == \A j \in 1..i : files[Locations[j]] = "absent"
(* the first existing file decides, whatever the others hold *)
InvFirst == Answered => \A i \in 1..N : Absent(i - 1) /\ files[Locations[i]] # "absent" =>
              /\ Last.ok = (files[Locations[i]] \in Valid)
              /\ Last.ok => Last.v = files[Locations[i]]
InvDefault == Answered => (Absent(N) <=> Last.ok /\ Last.v = "")
InvReported == Answered /\ ~Last.ok => \E l \in DOMAIN files : files[l] \in {"bad", "dir"}
InvShowAt == hist # <<>> /\ Last.op.what = "showat" => (Last.ok <=> files[Last.op.l] \in Valid)
(* asking changes nothing *)
StepReadOnly == [][scan' # scan \/ (hist' # hist /\ hist'[Len(hist')].op.what # "set") => files' = files]_cvars
=============================================================================
