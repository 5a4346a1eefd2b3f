------------------------------ MODULE TracePyproj ------------------------------
(* Recorded sessions of edits of one pyproject.toml. *)
EXTENDS Pyproj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn, store
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}
(* exotic: layouts that the TOML writer in use cannot edit in place: it may
   be refused, or parts may move.
   file: [state, tree], state being "ok", "missing" or "broken" (not TOML) *)
Verdict(s, e) ==
  LET x == e.in  o == e.out IN
  CASE e.op = "begin" -> {}
    [] e.op = "edit" ->
       LET ok == x.file.state = "ok" /\ Possible(x.file.tree, x.dels, x.adds, x.plugs)
           want == TLCEval(Edited(x.file.tree, x.dels, x.adds, x.plugs))
           done == o.file.state = "ok" /\ SameFile(o.file.tree, want)
           broken == o.broken       \* the outcome is a file that is not TOML
       IN Failed(<< <<"file-as-left", x.file = s>>,
                    <<"only-that-file", ~o.strays>>,
                    <<"refused", ok \/ ~o.ok \/ (x.file.state = "ok" /\ ~Shaped(x.file.tree))>>,
                    <<"refusal-changes-nothing", o.ok \/ o.same>> >>)
          \cup (IF ~ok THEN {}
                ELSE IF x.fault THEN Failed(<< <<"no-partial-write", o.same \/ done>>, <<"success-is-done", o.ok => done>> >>)
                ELSE Failed(<< <<"performed", o.ok \/ x.exotic>>, <<"still-toml", ~broken>>,
                               <<"edited-as-requested", broken \/ done \/ ~o.ok>>,
                               <<"others-kept", done => Kept(x.lines, x.dels, x.adds, x.file.tree, o.lines, ~x.exotic)>>,
                               <<"comments-kept", done => Kept(x.comments, x.dels, x.adds, x.file.tree, o.comments, ~x.exotic)>>,
                               <<"stays-valid", done /\ ValidFile(x.file.tree) /\ InstallTimeOnly(x.file.tree)
                                                => ValidFile(o.file.tree) /\ o.accepted /\ o.reqok>> >>))
NoFile == [state |-> "missing", tree |-> None]
Init == sess \in 1..Len(Trace) /\ posn = 0 /\ store = NoFile
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET e == Trace[sess].ev[posn + 1]
               bad == Verdict(store, e)
           IN /\ store' = e.out.file
              /\ bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn, store>>
=============================================================================
