--------------------------------- MODULE CliM ---------------------------------
(* Giving a command its options one after the other, in any spelling.  argv is
   what has been written so far and want what it means: every step knows what it
   adds, without looking at what was written before.  Understand has to recover
   it from the text. *)
EXTENDS Cli
VARIABLES cmd, argv, want, wrong, help, open
lvars == <<cmd, argv, want, wrong, help, open>>
Shorts(o) == {n \in o.names : ~IsLong(n)}
Longs(o) == o.names \ Shorts(o)
Good(o, v) == CASE o.t = AnyText -> TRUE [] o.t = Props -> v \in {"a::f::1", "a :: f :: 2"} [] OTHER -> v \in o.t
More(tokens, pairs, ok, d) ==
  /\ argv' = argv \o tokens /\ want' = want \o pairs /\ wrong' = (wrong \/ ~ok)
  /\ open' = d /\ UNCHANGED <<cmd, help>>
One(o, v) ==
  \/ \E n \in o.names : More(<<n, v>>, << <<o.d, v>> >>, Good(o, v), "")
  \/ \E n \in Longs(o) : More(<<n \o "=" \o v>>, << <<o.d, v>> >>, Good(o, v), "")
  \/ \E n \in Shorts(o) : More(<<n \o v>>, << <<o.d, v>> >>, Good(o, v), "")
Pairs(o, vs) == [i \in 1..Len(vs) |-> <<o.d, vs[i]>>]
AllGood(o, vs) == \A i \in 1..Len(vs) : Good(o, vs[i])
Many(o, vs) ==
  \/ \E n \in o.names : More(<<n>> \o vs, Pairs(o, vs), AllGood(o, vs), o.d)
  \/ \E n \in Longs(o) : More([i \in 1..Len(vs) |-> n \o "=" \o vs[i]], Pairs(o, vs), AllGood(o, vs), "")
Flag(o) == \E n \in o.names : More(<<n>>, << <<o.d, "">> >>, TRUE, "")
(* a flag and an option with a value in one token *)
Bundle(f, o, v) == \E n \in Shorts(f), m \in Shorts(o) :
  \/ More(<<"-" \o Chr(n, 2) \o Chr(m, 2), v>>, << <<f.d, "">>, <<o.d, v>> >>, Good(o, v), "")
  \/ More(<<"-" \o Chr(n, 2) \o Chr(m, 2) \o v>>, << <<f.d, "">>, <<o.d, v>> >>, Good(o, v), "")
(* a text of its own: one more value of a list, the positional argument, or a mistake *)
OptFor(d) == LET c == Cmd(cmd) IN c.opts[CHOOSE i \in 1..Len(c.opts) : c.opts[i].d = d]
Loose(v) ==
  IF open # "" THEN More(<<v>>, << <<open, v>> >>, Good(OptFor(open), v), open)
  ELSE IF Cmd(cmd).pos # {} /\ ~\E i \in 1..Len(want) : want[i][1] = "environment"
       THEN More(<<v>>, << <<"environment", v>> >>, v \in Cmd(cmd).pos, "")
  ELSE More(<<v>>, <<>>, FALSE, "")
Unknown(t) == More(<<t>>, <<>>, FALSE, "")
ValueForFlag(o) == \E n \in Longs(o) : More(<<n \o "=x">>, <<>>, FALSE, "")
(* an option with its value missing, before another option *)
NoValue(o, f) == \E n \in o.names, m \in f.names : More(<<n, m>>, <<>>, FALSE, "")
AskHelp == /\ argv' = Append(argv, "-h") /\ help' = TRUE /\ open' = "" /\ UNCHANGED <<cmd, want, wrong>>

(* --- what it means ------------------------------------------------------------ *)
Dests == {want[i][1] : i \in 1..Len(want)}
Values(d) == LET m == SelectSeq(want, LAMBDA g : g[1] = d) IN [i \in 1..Len(m) |-> m[i][2]]
Conflict == \E g \in Cmd(cmd).groups : Cardinality(Dests \cap g.ds) > 1
Complete ==
  /\ Cmd(cmd).req \subseteq Dests
  /\ \A g \in Cmd(cmd).groups : g.required => Dests \cap g.ds # {}
  /\ (cmd = "make-variant" /\ "label" \in Dests) =>
       /\ "null" \notin Dests
       /\ Values("label")[Len(Values("label"))] \notin {"null", "", "X", "abcdefghijklmnopq"}
  /\ cmd = "update-pyproject-toml" => Dests # {} /\ Dests # {"file"}
Meaning == IF help THEN (IF wrong \/ Conflict THEN "nothing" ELSE "help")
           ELSE IF wrong \/ Conflict \/ ~Complete THEN "error" ELSE "do"
InvUnderstood ==
  LET q == TLCEval(Understand(cmd, argv)) IN
  /\ q.k = Meaning
  /\ ~wrong => /\ Given(q) = Dests
               /\ \A d \in Dests : AllOf(q, d) = Values(d)
(* the same through the choice of the command, whose arguments are not looked at *)
Spoken == CASE StartsWith(cmd, "config ") -> <<"config", SubSeq(cmd, 8, Len(cmd))>>
           [] StartsWith(cmd, "plugins ") -> <<"plugins", SubSeq(cmd, 9, Len(cmd))>> [] OTHER -> <<cmd>>
InvChosen == Choose(Spoken \o argv, {}) = Choice("command", cmd, argv)
(* spelling does not matter: only the order of values with the same destination does *)
InvOrder == LET q == TLCEval(Understand(cmd, argv)) IN
            q.k = "do" => \A d \in Dests : LastOf(q, d, "") = Values(d)[Len(Values(d))]
=============================================================================
