--------------------------------- MODULE Cli ---------------------------------
(* The command line: which requests it stands for.

   A command has options; an option has names (short and long), a destination d,
   and a kind k: "flag" (takes nothing), "one" (takes a value, the last one
   counts) or "many" (takes one or more values, all of them count).  t is the
   type of the values: "any", "prop" or the set of choices.
   Destinations in req have to be given.  Of those in a group at most one may be
   given (exactly one if it is required).  pos: values a single optional
   positional argument may have.

   argv is a sequence of texts.  A request is [k, given], k being "do", "help" or
   "error", given the sequence of <<destination, value>> in the order of argv. *)
EXTENDS Text

O(names, d, k, t) == [names |-> names, d |-> d, k |-> k, t |-> t]
AnyText == {}                      \* any text
Props == {"a property"}            \* text of a property
HelpOption == O({"-h", "--help"}, "help", "help", AnyText)
Command(opts, req, groups) == [opts |-> Append(opts, HelpOption), req |-> req, groups |-> groups, pos |-> {}]
Grp(ds, required) == [ds |-> ds, required |-> required]
Table == TLCEval(<<
  <<"make-variant", Command(<<
     O({"-f", "--file"}, "file", "one", AnyText), O({"-o", "--output-directory"}, "out", "one", AnyText),
     O({"--no-isolation"}, "noiso", "flag", AnyText), O({"--installer"}, "installer", "one", {"pip", "uv"}),
     O({"-p", "--property"}, "props", "many", Props), O({"--null-variant"}, "null", "flag", AnyText),
     O({"--skip-plugin-validation"}, "skip", "flag", AnyText), O({"--pyproject-toml"}, "pyp", "one", AnyText),
     O({"--variant-label"}, "label", "one", AnyText)>>, {"file", "out"}, {Grp({"props", "null"}, TRUE)})>>,
  <<"unmake-variant", Command(<<
     O({"-f", "--file"}, "file", "one", AnyText), O({"-o", "--output-directory"}, "out", "one", AnyText)>>, {"file", "out"}, {})>>,
  <<"analyze-wheel", Command(<<O({"-i", "--input_file"}, "file", "one", AnyText)>>, {"file"}, {})>>,
  <<"generate-index-json", Command(<<O({"-d", "--directory"}, "dir", "one", AnyText)>>, {"dir"}, {})>>,
  <<"add-wheel-to-index-json", Command(<<
     O({"-f", "--wheel-file"}, "file", "one", AnyText), O({"-i", "--input-json-file"}, "index", "one", AnyText),
     O({"-o", "--output-directory"}, "out", "one", AnyText), O({"-w", "--overwrite"}, "over", "flag", AnyText)>>, {"file", "out"}, {})>>,
  <<"update-pyproject-toml", Command(<<
     O({"-f", "--file"}, "file", "one", AnyText), O({"-a", "--add"}, "add", "many", AnyText),
     O({"-d", "--delete"}, "del", "many", AnyText)>>, {}, {})>>,
  <<"get-variant-hash", Command(<<O({"-p", "--property"}, "props", "many", Props)>>, {}, {})>>,
  <<"analyze-platform", Command(<<>>, {}, {})>>,
  <<"config list-paths", Command(<<O({"-v", "--verbose"}, "verbose", "flag", AnyText)>>, {}, {})>>,
  <<"config show", [Command(<<>>, {}, {}) EXCEPT !.pos = {"LOCAL", "VIRTUALENV", "USER", "GLOBAL"}]>>,
  <<"plugins list", Command(<<>>, {}, {})>>,
  <<"plugins get-configs", Command(<<
     O({"-a", "--all"}, "all", "flag", AnyText), O({"-s", "--supported"}, "supported", "flag", AnyText),
     O({"-n", "--namespace"}, "namespace", "one", AnyText), O({"-f", "--feature"}, "feature", "one", AnyText)>>,
     {}, {Grp({"all", "supported"}, TRUE)})>> >>)
Groups == {"config", "plugins"}
Cmd(name) == Get(Table, name)

(* --- tokens ---------------------------------------------------------------------- *)
Dashed(t) == Len(t) > 1 /\ Chr(t, 1) = "-"
IsLong(t) == StartsWith(t, "--")
FirstEq(t) == LET E == {i \in 1..Len(t) : Chr(t, i) = "="} IN IF E = {} THEN 0 ELSE CHOOSE i \in E : \A j \in E : i <= j
HasOpt(c, n) == \E i \in 1..Len(c.opts) : n \in c.opts[i].names
Option(c, n) == c.opts[CHOOSE i \in 1..Len(c.opts) : n \in c.opts[i].names]
(* what a dashed token is: its option and the value in it, if any *)
Nothing == [has |-> FALSE, v |-> ""]
Val(v) == [has |-> TRUE, v |-> v]
Split(c, t) ==
  LET e == FirstEq(t) IN
  IF HasOpt(c, t) THEN [known |-> TRUE, n |-> t, v |-> Nothing, eq |-> FALSE]
  ELSE IF e > 1 /\ HasOpt(c, SubSeq(t, 1, e - 1))
    THEN [known |-> TRUE, n |-> SubSeq(t, 1, e - 1), v |-> Val(SubSeq(t, e + 1, Len(t))), eq |-> TRUE]
  ELSE IF ~IsLong(t) /\ HasOpt(c, SubSeq(t, 1, 2))
    THEN [known |-> TRUE, n |-> SubSeq(t, 1, 2), v |-> Val(SubSeq(t, 3, Len(t))), eq |-> FALSE]
  ELSE [known |-> FALSE, n |-> t, v |-> Nothing, eq |-> FALSE]

(* --- reading ----------------------------------------------------------------------- *)
Typed(o, v) == CASE o.t = AnyText -> TRUE [] o.t = Props -> Accepts(Cp(v), "prop") [] OTHER -> v \in o.t
(* number of values that follow position i *)
Follow(argv, i) == LET D == {j \in (i + 1)..Len(argv) : Dashed(argv[j])}
                   IN IF D = {} THEN Len(argv) - i ELSE (CHOOSE j \in D : \A k \in D : j <= k) - i - 1
Start0 == [bad |-> FALSE, help |-> FALSE, given |-> <<>>, pos |-> <<>>]
Wrong(r) == [r EXCEPT !.bad = TRUE]
PutVal(r, o, v) == IF Typed(o, v) THEN [r EXCEPT !.given = Append(@, <<o.d, v>>)] ELSE Wrong(r)
RECURSIVE PutVals(_, _, _)
PutVals(r, o, vs) == IF vs = <<>> THEN r ELSE PutVals(PutVal(r, o, Head(vs)), o, Tail(vs))
RECURSIVE Read1(_, _, _, _)
(* a dashed token, possibly several flags in one: [r, n], n values of what follows are used up *)
Read1(c, r, t, rest) ==
  LET s == Split(c, t) IN
  IF ~s.known THEN [r |-> Wrong(r), n |-> 0]
  ELSE LET o == Option(c, s.n) IN
    CASE o.k \in {"flag", "help"} ->
           LET r2 == IF o.k = "help" THEN [r EXCEPT !.help = TRUE] ELSE [r EXCEPT !.given = Append(@, <<o.d, "">>)] IN
           IF ~s.v.has THEN [r |-> r2, n |-> 0]
           ELSE IF s.eq \/ s.v.v = "" THEN [r |-> Wrong(r), n |-> 0]
           ELSE Read1(c, r2, "-" \o s.v.v, rest)
      [] o.k = "one" ->
           IF s.v.has THEN [r |-> PutVal(r, o, s.v.v), n |-> 0]
           ELSE IF rest = <<>> THEN [r |-> Wrong(r), n |-> 0] ELSE [r |-> PutVal(r, o, rest[1]), n |-> 1]
      [] OTHER ->
           IF s.v.has THEN [r |-> PutVal(r, o, s.v.v), n |-> 0]
           ELSE IF rest = <<>> THEN [r |-> Wrong(r), n |-> 0] ELSE [r |-> PutVals(r, o, rest), n |-> Len(rest)]
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(c, argv, i, r) ==
  IF i > Len(argv) THEN r
  ELSE IF ~Dashed(argv[i]) THEN ReadFrom(c, argv, i + 1, [r EXCEPT !.pos = Append(@, argv[i])])
  ELSE LET x == TLCEval(Read1(c, r, argv[i], SubSeq(argv, i + 1, i + Follow(argv, i))))
       IN ReadFrom(c, argv, i + 1 + x.n, x.r)
Given(q) == Keys(q.given)
AllOf(q, d) == LET m == Filter(q.given, LAMBDA g : g[1] = d) IN [i \in 1..Len(m) |-> m[i][2]]
LastOf(q, d, dflt) == LET m == AllOf(q, d) IN IF m = <<>> THEN dflt ELSE m[Len(m)]
FlagOf(q, d) == d \in Given(q)
(* rules beyond the table *)
Extra(name, q) ==
  CASE name = "make-variant" ->
         FlagOf(q, "label") => ~FlagOf(q, "null") /\ LabelOk(FALSE, Cp(LastOf(q, "label", "")))
    [] name = "update-pyproject-toml" -> FlagOf(q, "add") \/ FlagOf(q, "del")
    [] OTHER -> TRUE
Understand(name, argv) ==
  LET c == Cmd(name)
      r == TLCEval(ReadFrom(c, argv, 1, Start0))
      ds == Given(r)
      good == /\ ~r.bad
              /\ Len(r.pos) <= (IF c.pos = {} THEN 0 ELSE 1) /\ Range(r.pos) \subseteq c.pos
              /\ \A g \in c.groups : Cardinality(ds \cap g.ds) <= 1
      whole == /\ c.req \subseteq ds
               /\ \A g \in c.groups : g.required => ds \cap g.ds # {}
               /\ Extra(name, r)
  IN [k |-> IF r.help THEN (IF good THEN "help" ELSE "nothing") ELSE IF good /\ whole THEN "do" ELSE "error",
      given |-> r.given \o [i \in 1..Len(r.pos) |-> <<"environment", r.pos[i]>>]]

(* --- choosing the command -------------------------------------------------------------- *)
(* others: commands of other distributions, which get what follows as it is *)
Help1 == {"-h", "--help"}
Vers1 == {"-v", "--version"}
Names1 == {"make-variant", "unmake-variant", "analyze-wheel", "generate-index-json", "add-wheel-to-index-json", "update-pyproject-toml",
           "get-variant-hash", "analyze-platform", "config", "plugins"}
Names2 == [config |-> {"list-paths", "show"}, plugins |-> {"list", "get-configs"}]
Choice(k, name, rest) == [k |-> k, name |-> name, rest |-> rest]
Refusal == Choice("error", "", <<>>)
Choose(argv, others) ==
  IF argv = <<>> THEN Refusal
  ELSE LET t == argv[1]  rest == Tail(argv) IN
  IF t \in Help1 THEN Choice("help", "", <<>>)
  ELSE IF t \in Vers1 THEN Choice("version", "", <<>>)
  ELSE IF Dashed(t) THEN Refusal
  ELSE IF t \in others THEN Choice("other", t, rest)
  ELSE IF t \notin Names1 THEN Refusal
  ELSE IF t \notin Groups THEN Choice("command", t, rest)
  ELSE IF rest = <<>> THEN Refusal
  ELSE LET u == rest[1]  full == t \o " " \o u IN
  IF u \in Help1 THEN Choice("help", "", <<>>)
  ELSE IF Dashed(u) THEN Refusal
  ELSE IF full \in others THEN Choice("other", full, Tail(rest))
  ELSE IF u \notin Names2[t] THEN Refusal
  ELSE Choice("command", full, Tail(rest))
=============================================================================
