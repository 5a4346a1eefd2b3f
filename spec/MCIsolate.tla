------------------------------- MODULE MCIsolate -------------------------------
EXTENDS IsolateM, TLC, Json
CONSTANTS Tier, Emit
Uses == (SUBSET {"i", "b", "s", "u"}) \ {{}}
Behave == {"good", "other", "refuse", "dead"}
(* parameters that cannot matter are fixed *)
Runs == {r \in [iso : BOOLEAN, skip : BOOLEAN, null : BOOLEAN, fail : {"", "create", "install"}, use : Uses, inside : Behave, host : Behave] :
          /\ r.null => r.use = {"s"} /\ r.host = "good"
          /\ Wanted(r) \/ (r.fail = "" /\ r.inside = "good")
          /\ (r.fail # "") => r.inside = "good" /\ r.host = "good"
          /\ (r.use \cap Plugged = {}) => r.inside = "good" /\ r.host = "good"
          /\ Wanted(r) => r.host \in {"good", "dead"}}
(* in longer histories *)
Few == {r \in Runs : r.use \in {{"i"}, {"b", "s"}, {"i", "b"}} /\ (r.use = {"i"} => r.iso)}
MaxRuns == IF Tier = "quick" THEN 2 ELSE 3
Init == run = [iso |-> FALSE, skip |-> FALSE, null |-> TRUE, fail |-> "", use |-> {"s"}, inside |-> "good", host |-> "good"]
        /\ pc = "idle" /\ env = NoEnv /\ log = <<>> /\ files = <<>> /\ hist = <<>>
Next == \/ /\ Len(hist) < MaxRuns
           /\ \E r \in (IF hist = <<>> THEN Runs ELSE Few) : (Len(hist) > 0 => hist[1].run \in Few) /\ Start(r)
        \/ Create \/ Install \/ Validate \/ Record \/ Leave \/ End
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Create \/ Install \/ Validate \/ Record \/ Leave \/ End)
EmitInv == (Emit /\ pc = "idle" /\ hist # <<>>
            /\ (Len(hist) = 2 \/ (Len(hist) = 1 /\ hist[1].run \notin Few) \/ (Len(hist) = 3 /\ Len(ToJson(hist)) % 40 = 0)))
           => PrintT("@@S " \o ToJson([hist |-> hist]))
=============================================================================
