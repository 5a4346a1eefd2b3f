------------------------------- MODULE TraceCli -------------------------------
(* Recorded sessions of command lines in a small file system.  Paths of the file
   system are relative to its root; commands run in its directory c, and "@/" at
   the beginning of an argument stands for the root. *)
EXTENDS WheelCmd, Cli, Json, IOUtils
PP == INSTANCE Pyproj
CC == INSTANCE Config
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, posn

From(s, i) == SubSeq(s, i, Len(s))
NoSlash(p) == IF Len(p) > 1 /\ EndsWith(p, "/") THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Loc(a) == LET p == NoSlash(a) IN
          CASE StartsWith(p, "@/") -> From(p, 3) [] StartsWith(p, "../") -> From(p, 4)
            [] StartsWith(p, "./") -> "c/" \o From(p, 3) [] p = "." -> "c" [] OTHER -> "c/" \o p
HasFile(e, p) == There(e.pre, p)
HasDir(e, p) == There(e.pre, p \o "/")
Is(e, fs, p, t) == There(fs, p) /\ Content(e, fs, p).t = t
Doc(e, fs, p) == Content(e, fs, p).doc
Trip(t) == LET ps == PartsOf(Cp(t), "prop") IN <<StrOf(ps[1]), StrOf(ps[2]), StrOf(ps[3])>>
Trips(q) == LET a == AllOf(q, "props") IN [i \in 1..Len(a) |-> TLCEval(Trip(a[i]))]
(* the request as an event of module WheelCmd *)
As(e, op, x, out) == [op |-> op, in |-> x, out |-> out, pre |-> e.pre, post |-> e.post, blobs |-> e.blobs]
Ended(e) == [ok |-> e.out.ok, died |-> FALSE]
FileArgs(e, p, out) == [file |-> p, name |-> BaseName(p), namecp |-> Cp(BaseName(p)), exists |-> HasFile(e, p), fault |-> FALSE,
                        outdir |-> out, outok |-> HasDir(e, out)]
FileOf(q) == Loc(LastOf(q, "file", ""))
OutOf(q) == Loc(LastOf(q, "out", ""))
TomlDefault == "./pyproject.toml"
TomlAt(e, p) == IF Is(e, e.pre, p, "toml") THEN [has |-> TRUE, doc |-> Doc(e, e.pre, p)] ELSE [has |-> FALSE, doc |-> <<"z">>]
MakeEvent(e, q) ==
  LET b == FileArgs(e, FileOf(q), OutOf(q))
      lab == LastOf(q, "label", "")
      inst == LastOf(q, "installer", "") IN
  As(e, "make",
     [file |-> b.file, name |-> b.name, namecp |-> b.namecp, exists |-> b.exists, fault |-> FALSE, outdir |-> b.outdir, outok |-> b.outok,
      props |-> Trips(q), propsok |-> TRUE, null |-> FlagOf(q, "null"), skip |-> FlagOf(q, "skip"),
      lab |-> [has |-> FlagOf(q, "label"), v |-> lab, cp |-> Cp(lab)],
      pyp |-> TomlAt(e, Loc(LastOf(q, "pyp", TomlDefault))),
      iso |-> [has |-> ~FlagOf(q, "noiso"), installer |-> inst, fail |-> ""],
      plug |-> e.in.plug, inside |-> e.in.inside, marks |-> <<>>],
     [ok |-> e.out.ok, died |-> FALSE, env |-> e.out.env, places |-> e.out.places])
Make(e, q) == LET w == TLCEval(MakeEvent(e, q)) IN
  CheckFile(w) \cup (IF w.in.iso.has \/ e.out.places # <<>> THEN CheckEnv(w) ELSE Failed(<< <<"env-only-when-needed", e.out.env = <<>> >> >>))
Unmake(e, q) == LET b == FileArgs(e, FileOf(q), OutOf(q)) IN
  CheckFile(As(e, "unmake", [file |-> b.file, name |-> b.name, namecp |-> b.namecp, exists |-> b.exists, fault |-> FALSE, outdir |-> b.outdir,
                             outok |-> b.outok, orig |-> ""], Ended(e)))
Generate(e, q) == LET d == Loc(LastOf(q, "dir", "")) IN
  CheckFile(As(e, "generate", [dir |-> d, dirok |-> HasDir(e, d), fault |-> FALSE], Ended(e)))
AddTo(e, q) == LET b == FileArgs(e, FileOf(q), OutOf(q)) IN
  CheckFile(As(e, "add", [file |-> b.file, name |-> b.name, namecp |-> b.namecp, exists |-> b.exists, fault |-> FALSE, outdir |-> b.outdir,
                          outok |-> b.outok, over |-> FlagOf(q, "over"), hasindex |-> FlagOf(q, "index"),
                          index |-> IF FlagOf(q, "index") THEN Loc(LastOf(q, "index", "")) ELSE ""], Ended(e)))
Analyze(e, q) == LET b == FileArgs(e, FileOf(q), "") IN
  CheckAnalyze(As(e, "analyze", [file |-> b.file, namecp |-> b.namecp, exists |-> b.exists],
                  [ok |-> e.out.ok, lines |-> e.out.lines, shown |-> e.out.shown]))
Update(e, q) ==
  LET p == Loc(LastOf(q, "file", TomlDefault))
      t == TomlAt(e, p)
      ok == t.has /\ PP!Possible(t.doc, AllOf(q, "del"), AllOf(q, "add"), e.in.plugs) IN
  IF ~ok THEN Failed(<< <<"refused", ~e.out.ok>>, <<"refusal-changes-nothing", OthersSame(e, {})>> >>)
  ELSE IF ~e.out.ok THEN {"done"}
  ELSE Failed(<< <<"other-files-untouched", OthersSame(e, {p})>>,
                 <<"edited-as-requested", Is(e, e.post, p, "toml") /\
                   PP!SameFile(Doc(e, e.post, p), PP!Edited(t.doc, AllOf(q, "del"), AllOf(q, "add"), e.in.plugs))>> >>)

(* commands that only print *)
Prints(e, ok, clauses) ==
  Failed(<< <<"printing-changes-nothing", OthersSame(e, {})>>, <<"refused", ok \/ ~e.out.ok>>, <<"done", ~ok \/ e.out.ok>> >>)
  \cup (IF ok /\ e.out.ok THEN Failed(clauses) ELSE {})
SameCfg(a, b) == Keys(a) = Keys(b) /\ Len(a) = Len(b) /\ \A n \in Keys(a) : Get(a, n) = Get(b, n)
(* e.in.host: namespace -> [all, sup] of the installed plugins *)
Configured(e, which) == [i \in 1..Len(e.in.host) |->
  <<e.in.host[i][1], IF which = "all" THEN e.in.host[i][2].all.v ELSE e.in.host[i][2].sup.v>>]
Fits(q, d, v) == ~FlagOf(q, d) \/ v = LastOf(q, d, "")
GetConfigs(e, q) ==
  LET all == Configured(e, IF FlagOf(q, "all") THEN "all" ELSE "sup")
      mine == Filter(all, LAMBDA p : Fits(q, "namespace", p[1]))
      want == [i \in 1..Len(mine) |-> <<mine[i][1], Filter(mine[i][2], LAMBDA f : Fits(q, "feature", f[1]))>>] IN
  Prints(e, TRUE, << <<"printed-configs", SameCfg(e.out.v, Filter(want, LAMBDA p : p[2] # <<>>))>> >>)
Platform(e) ==
  LET all == Filter(Configured(e, "sup"), LAMBDA p : p[2] # <<>>) IN
  Prints(e, TRUE, << <<"printed-configs", SameCfg(e.out.v,
    [i \in 1..Len(all) |-> <<all[i][1], [j \in 1..Len(all[i][2]) |-> <<all[i][2][j][1], all[i][2][j][2]>>]>>])>> >>)
HashOf(e, q) == LET ps == Trips(q) IN
  Prints(e, NoDup(ps), << <<"printed-hash", e.out.text = Hash(ps) \o "\n">> >>)
ConfPath(l) == CASE l = "LOCAL" -> "c/variants.toml" [] l = "VIRTUALENV" -> "v/variants.toml"
                 [] l = "USER" -> "x/variantlib/variants.toml" [] OTHER -> "s/variantlib/variants.toml"
ConfAt(e, l) == LET p == ConfPath(l) IN
  IF ~HasFile(e, p) THEN <<"absent">> ELSE IF Is(e, e.pre, p, "toml") THEN <<"doc", Doc(e, e.pre, p)>> ELSE <<"broken">>
ConfFiles(e) == [i \in 1..4 |-> <<CC!Locs[i], ConfAt(e, CC!Locs[i])>>]
Show(e, q) ==
  LET w == TLCEval(CC!Shown(ConfFiles(e), [has |-> FlagOf(q, "environment"), v |-> LastOf(q, "environment", "")])) IN
  Prints(e, w.ok, << <<"shown-configuration", CC!ConfigOk(e.out.tree) /\ CC!SaysSame(CC!CfgRead(e.out.tree), w.v)>> >>)
Paths(e, q) ==
  Prints(e, TRUE, << <<"printed-paths", e.out.v = [i \in 1..4 |->
    LET l == CC!Locs[i] IN <<l, ConfPath(l), IF ~FlagOf(q, "verbose") THEN "" ELSE IF HasFile(e, ConfPath(l)) THEN "there" ELSE "missing">>]>> >>)
Plist(e) == Prints(e, TRUE, << <<"printed-namespaces", Range(e.out.nss) = Keys(e.in.host) /\ NoDup(e.out.nss)>> >>)

Done(e, name, q) ==
  CASE name = "make-variant" -> Make(e, q)
    [] name = "unmake-variant" -> Unmake(e, q)
    [] name = "generate-index-json" -> Generate(e, q)
    [] name = "add-wheel-to-index-json" -> AddTo(e, q)
    [] name = "analyze-wheel" -> Analyze(e, q)
    [] name = "update-pyproject-toml" -> Update(e, q)
    [] name = "get-variant-hash" -> HashOf(e, q)
    [] name = "analyze-platform" -> Platform(e)
    [] name = "plugins list" -> Plist(e)
    [] name = "plugins get-configs" -> GetConfigs(e, q)
    [] name = "config show" -> Show(e, q)
    [] name = "config list-paths" -> Paths(e, q)
Idle(e) == OthersSame(e, {}) /\ e.out.env = <<>>
Refused(e) == Failed(<< <<"misused-refused", ~e.out.ok>>, <<"misuse-changes-nothing", Idle(e)>> >>)
Helps(e) == Failed(<< <<"help-given", e.out.ok /\ e.out.text # "">>, <<"help-changes-nothing", Idle(e)>> >>)
Verdict(e) ==
  LET c == TLCEval(Choose(e.in.argv, Range(e.in.others)))
      called == IF c.k = "other" THEN << <<c.name, c.rest>> >> ELSE <<>>
  IN Failed(<< <<"others-called", e.out.calls = called>> >>) \cup
     (CASE c.k = "error" -> Refused(e)
        [] c.k \in {"help", "version"} -> Helps(e)
        [] c.k = "other" -> Prints(e, TRUE, <<>>)
        [] OTHER ->
             LET q == TLCEval(Understand(c.name, c.rest)) IN
             CASE q.k = "error" -> Refused(e)
               [] q.k = "help" -> Helps(e)
               [] q.k = "nothing" -> Failed(<< <<"help-changes-nothing", Idle(e)>> >>)
               [] OTHER -> Done(e, c.name, q))
Init == sess \in 1..Len(Trace) /\ posn = 0
Next == /\ posn < Len(Trace[sess].ev)
        /\ posn' = posn + 1 /\ sess' = sess
        /\ LET bad == Verdict(Trace[sess].ev[posn + 1])
           IN bad = {} \/ PrintT("@@V " \o ToJson([id |-> Trace[sess].id, n |-> posn, bad |-> bad]))
Spec == Init /\ [][Next]_<<sess, posn>>
=============================================================================
