------------------------------ MODULE TraceWheel ------------------------------
(* Recorded runs of the wheel and index commands. *)
EXTENDS WheelCmd, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn

Verdict(e) == IF e.op = "analyze" THEN CheckAnalyze(e)
              ELSE CheckFile(e) \cup (IF e.op = "make" /\ (e.in.iso.has \/ e.out.places # <<>>) THEN CheckEnv(e) ELSE {})
Init == sess \in 1..Len(Trace) /\ posn = 0
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET bad == Verdict(Trace[sess].ev[posn + 1])
           IN bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn>>
=============================================================================
