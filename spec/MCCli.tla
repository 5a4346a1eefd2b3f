-------------------------------- MODULE MCCli --------------------------------
EXTENDS CliM, Json
CONSTANTS Tier, Emit
VARIABLES count
Depth(c) == CASE c = "make-variant" -> IF Tier = "quick" THEN 2 ELSE 3
              [] c \in {"config list-paths", "config show", "plugins list", "analyze-platform"} -> 3
              [] c \in {"add-wheel-to-index-json", "update-pyproject-toml"} -> 3
              [] OTHER -> IF Tier = "quick" THEN 3 ELSE 4
W1 == "@/w/pkg-1.0-py3-none-any.whl"
V1 == "../d/pkg-1.0-py3-none-any-x.whl"
Vals(c, d) ==
  CASE d = "file" -> (CASE c = "make-variant" -> {W1} [] c = "update-pyproject-toml" -> {"alt.toml"} [] OTHER -> {V1})
    [] d = "out" -> {"@/o", "../o2"}
    [] d = "dir" -> {"@/d"}
    [] d = "installer" -> {"uv", "conda"}
    [] d = "pyp" -> {"alt.toml"}
    [] d = "label" -> {"x", "null"}
    [] d = "index" -> {"../i/old.json"}
    [] d = "namespace" -> {"b"}
    [] d = "feature" -> {"f"}
    [] OTHER -> {}
Lists(d) == CASE d = "props" -> {<<"a::f::1">>, <<"a::f::1", "a :: f :: 2">>, <<"a::f">>}
              [] d \in {"add", "del"} -> {<<"a">>, <<"b", "a">>}
              [] OTHER -> {}
(* a command that has its required options, in one of several spellings *)
First == [c \in Keys(Table) |->
  IF c = "make-variant"
  THEN {<< <<"-f", W1, "--output-directory=@/o">>, << <<"file", W1>>, <<"out", "@/o">> >> >>,
        << <<"-o@/o", "--file", W1>>, << <<"out", "@/o">>, <<"file", W1>> >> >>}
  ELSE {<< <<>>, <<>> >>}]
Init == /\ cmd \in Keys(Table)
        /\ \E f \in First[cmd] : argv = f[1] /\ want = f[2]
        /\ wrong = FALSE /\ help = FALSE /\ open = "" /\ count = 0
Opts == Range(Cmd(cmd).opts)
Kind(k) == {o \in Opts : o.k = k}
(* (after a mistake or a question nothing of interest follows) *)
Next == /\ ~wrong /\ ~help /\ count < Depth(cmd)
        /\ count' = count + 1
        /\ \/ \E o \in Kind("one") : \E v \in Vals(cmd, o.d) : One(o, v)
           \/ \E o \in Kind("many") : \E vs \in Lists(o.d) : Many(o, vs)
           \/ \E o \in Kind("flag") : Flag(o) \/ ValueForFlag(o)
           \/ \E f \in Kind("flag"), o \in Kind("one") : \E v \in Vals(cmd, o.d) : Bundle(f, o, v)
           \/ \E o \in Kind("one") \cup Kind("many"), f \in Opts : f.d # "help" /\ NoValue(o, f)
           \/ Loose("a") \/ Loose("LOCAL") \/ Unknown("--bogus") \/ Unknown("-x")
           \/ AskHelp
Spec == Init /\ [][Next]_<<lvars, count>>
EmitInv == Emit =>
  LET q == Understand(cmd, argv)  n == Len(ToJson(argv)) IN
  (q.k = "error" /\ n % 3 # 0) \/ (Tier # "quick" /\ n % 5 # 0) \/ PrintT("@@S " \o ToJson([argv |-> Spoken \o argv, k |-> q.k]))
=============================================================================
