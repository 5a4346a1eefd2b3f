------------------------------ MODULE WheelCmd ------------------------------
(* What the wheel and index commands may do.  An event has the file system before
   (pre) and after (post) a command, the contents met (blobs), the request (in) and
   the outcome (out). *)
EXTENDS Wheel
Failed(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}

Blob(e, id) == Get(e.blobs, id)
There(fs, p) == HasKey(fs, p)
Content(e, fs, p) == Blob(e, Get(fs, p))
SameFile(e, p) == There(e.pre, p) = There(e.post, p) /\ (There(e.pre, p) => Get(e.pre, p) = Get(e.post, p))
(* files other than those in T are as before *)
OthersSame(e, T) == \A p \in (Keys(e.pre) \cup Keys(e.post)) \ T : SameFile(e, p)
OthersKept(e, T) == \A p \in Keys(e.pre) \ T : SameFile(e, p)
In(dir, name) == dir \o "/" \o name

(* --- make-variant ------------------------------------------------------------------ *)
MakeDesc(x) == IF x.null THEN Null ELSE Canon(x.props)
(* the plugins are asked in an environment of the run, in which the requirements of the
   namespaces in use were installed, or in the host when nothing is to be validated *)
Isolated(x) == x.iso.has /\ ~x.skip /\ ~x.null
Plugs(x) == IF Isolated(x) THEN x.inside ELSE x.plug
MakeArgsOk(x) ==
  /\ x.exists /\ x.outok /\ x.propsok
  /\ x.null \/ NoDup(x.props)
  /\ x.lab.has => ~x.null /\ x.lab.cp # NullCp /\ LabelTxt(x.lab.cp)
  /\ x.pyp.has /\ Accepted("pyproject", x.pyp.doc, NoText)
  /\ WheelName(x.namecp).kind # "invalid"
MakeLabel(x) == IF x.null THEN "null" ELSE IF x.lab.has THEN x.lab.v ELSE Hash(x.props)
MakeMeta(x) == Parse("pyproject", x.pyp.doc)
EnvOk(x) == Isolated(x) => Declared(MakeMeta(x), NamespacesOf(MakeDesc(x))) /\ x.iso.fail = ""
MakeOk(e) ==
  LET x == e.in IN
  /\ MakeArgsOk(x)
  /\ EnvOk(x)
  /\ (x.skip \/ x.null) \/ AllValid(MakeMeta(x), MakeDesc(x), x.marks, Plugs(x))
  /\ RecordOk(MakeMeta(x), MakeDesc(x), x.marks, Plugs(x))
  /\ There(e.pre, x.file) /\ Readable(Content(e, e.pre, x.file))
CountEnv(e, k) == Cardinality({i \in 1..Len(e.out.env) : e.out.env[i][1] = k})
CheckEnv(e) ==
  LET x == e.in  log == e.out.env
      args == MakeArgsOk(x)
      made == CountEnv(e, "enter")
      installed == UNION {IF log[i][1] = "install" THEN Range(log[i][2]) ELSE {} : i \in 1..Len(log)}
  IN Failed(<< <<"env-only-when-needed", (Isolated(x) \/ made = 0) /\ made <= 1>>,
               <<"env-removed", CountEnv(e, "exit") = made>>,
               <<"env-installer", \A i \in 1..Len(log) : log[i][1] = "enter" => log[i][2] = << (IF x.iso.installer = "" THEN "pip" ELSE x.iso.installer) >> >>,
               <<"env-created", args /\ Isolated(x) /\ x.iso.fail # "create" /\ e.out.ok => made = 1>>,
               <<"env-requirements", args /\ Readable(Content(e, e.pre, x.file)) /\ Isolated(x) /\ x.iso.fail # "create" /\ Declared(MakeMeta(x), NamespacesOf(MakeDesc(x)))
                                     => installed = Requires(MakeMeta(x), NamespacesOf(MakeDesc(x)), TRUE)>>,
               <<"env-asked-there", Range(e.out.places) \subseteq {IF Isolated(x) THEN "env" ELSE "d"}>> >>)
MakeOut(x) == In(x.outdir, VariantFile(StrOf(WheelName(x.namecp).base), MakeLabel(x)))
MakeInfo(x) == DistInfo(MakeMeta(x), MakeDesc(x), MakeLabel(x), Plugs(x))
MakeGood(e, p) == MadeFailures(Content(e, e.pre, e.in.file), Content(e, e.post, p), MakeInfo(e.in))
(* the metadata can be read back, unless for the providers that were not recorded *)
MakeReadable(e) ==
  LET x == e.in  m == MakeInfo(x)  t == Write("dist", m) IN
  IF Accepted("dist", t, NoText) THEN {}
  ELSE IF Unrecorded(MakeMeta(x), MakeDesc(x)) # {} THEN {"unused-aot-providers-recorded"} ELSE {"metadata-accepted"}

(* --- unmake-variant ------------------------------------------------------------------ *)
UnmakeKind(x) == WheelName(x.namecp).kind
UnmakeOk(e) == LET x == e.in IN
  /\ x.exists /\ x.outok /\ UnmakeKind(x) = "variant"
  /\ There(e.pre, x.file) /\ Readable(Content(e, e.pre, x.file))
UnmakeOut(x) == In(x.outdir, StrOf(WheelName(x.namecp).base))
UnmakeGood(e, p) ==
  UnmadeFailures(Content(e, e.pre, e.in.file), Content(e, e.post, p))
  \cup (IF e.in.orig = "" THEN {}
        ELSE LET o == Blob(e, e.in.orig)  c == Content(e, e.post, p) IN
             IF IsWheel(c) /\ KeptFailures(o, c) = {} /\ Raws(RecordOf(o).rows) = Raws(RecordOf(c).rows) THEN {} ELSE {"undoes-making"})

(* --- generate-index-json ---------------------------------------------------------------- *)
InDir(fs, dir) == Filter(fs, LAMBDA f : StartsWith(f[1], dir \o "/")
                                      /\ Slashes(SubSeq(f[1], Len(dir) + 2, Len(f[1]))) = {})
BaseName(p) == IF Slashes(p) = {} THEN p ELSE LET i == CHOOSE i \in Slashes(p) : \A j \in Slashes(p) : i >= j IN SubSeq(p, i + 1, Len(p))
Wheels(e) ==           \* [name, meta] of the wheels to be listed, in file name order
  LET dirf == InDir(e.pre, e.in.dir)
      names == SortStrings([i \in 1..Len(dirf) |-> BaseName(dirf[i][1])])
      use(n) == LET w == Parsed(n) IN w.kind = "variant" /\ FiledOk(Content(e, e.pre, In(e.in.dir, n)), StrOf(w.label))
      good == TLCEval(Filter(names, use))
  IN TLCEval([i \in 1..Len(good) |-> [name |-> NameVer(good[i]), meta |-> FiledMeta(Content(e, e.pre, In(e.in.dir, good[i])))]])
Projects(ws) == {ws[i].name : i \in 1..Len(ws)}
IndexFor(ws, n) == LET mine == Filter(ws, LAMBDA w : w.name = n) IN IndexOf([i \in 1..Len(mine) |-> mine[i].meta])
IndexFailures(c, m) ==
  IF ~(c.t = "json" /\ Accepted("index", c.doc, NoText)) THEN {"index-readable"}
  ELSE LET g == Parse("index", c.doc) IN
       Failed(<< <<"index-labels", Keys(g.variants) = Keys(m.variants)>>,
                 <<"index-properties", \A l \in Keys(g.variants) \cap Keys(m.variants) : Get(g.variants, l) = Get(m.variants, l)>>,
                 <<"index-common", SameMeta(Common(g), Common(m))>> >>)
GenTargets(e) == LET ws == Wheels(e) IN {In(e.in.dir, IndexFile(n)) : n \in Projects(ws)}
GenGood(e, p) == LET ws == Wheels(e)
                     n == CHOOSE n \in Projects(ws) : p = In(e.in.dir, IndexFile(n))
                 IN IndexFailures(Content(e, e.post, p), IndexFor(ws, n))

(* --- add-wheel-to-index-json --------------------------------------------------------------- *)
AddOut(x) == In(x.outdir, IndexFile(NameVer(x.name)))
AddWheelOk(e) == LET x == e.in  w == WheelName(x.namecp) IN
  /\ x.exists /\ w.kind = "variant" /\ There(e.pre, x.file) /\ FiledOk(Content(e, e.pre, x.file), StrOf(w.label))
AddOld(e) == Parse("index", Content(e, e.pre, e.in.index).doc)
AddNew(e) == FiledMeta(Content(e, e.pre, e.in.file))
AddOk(e) == LET x == e.in IN
  /\ x.outok /\ AddWheelOk(e)
  /\ x.hasindex => /\ There(e.pre, x.index) /\ Content(e, e.pre, x.index).t = "json"
                   /\ Accepted("index", Content(e, e.pre, x.index).doc, NoText)
                   /\ CanMerge(AddOld(e), AddNew(e))
  /\ There(e.pre, AddOut(x)) => x.over
AddMeta(e) == IF e.in.hasindex THEN Merge(AddOld(e), AddNew(e)) ELSE AddNew(e)
AddGood(e, p) == IndexFailures(Content(e, e.post, p), AddMeta(e))

(* --- the file effects of a command, expected to succeed, fail or do nothing ------------------ *)
Allowed(e) == CASE e.op = "make" -> MakeOk(e)
                [] e.op = "unmake" -> UnmakeOk(e)
                [] e.op = "generate" -> e.in.dirok
                [] e.op = "add" -> AddOk(e)
Targets(e) == CASE e.op = "make" -> {MakeOut(e.in)}
                [] e.op = "unmake" -> {UnmakeOut(e.in)}
                [] e.op = "generate" -> GenTargets(e)
                [] e.op = "add" -> {AddOut(e.in)}
Good(e, p) == CASE e.op = "make" -> MakeGood(e, p)
                [] e.op = "unmake" -> UnmakeGood(e, p)
                [] e.op = "generate" -> GenGood(e, p)
                [] e.op = "add" -> AddGood(e, p)
(* unmaking a wheel that is no variant is not an error *)
NoOp(e) == e.op = "unmake" /\ e.in.exists /\ e.in.outok /\ UnmakeKind(e.in) = "plain"
Completed(e) ==
  LET T == Targets(e) IN
  UNION {IF There(e.post, p) THEN Good(e, p) ELSE {"output-there"} : p \in T}
  \cup Failed(<< <<"other-files-untouched", OthersSame(e, T)>> >>)
Interrupted(e) ==      \* by an injected fault
  LET T == TLCEval(Targets(e)) IN
  UNION {IF SameFile(e, p) THEN {} ELSE IF There(e.post, p) THEN {"old-or-complete" : x \in Good(e, p)} ELSE {"old-or-complete"} : p \in T}
  \cup Failed(<< <<"inputs-intact", OthersKept(e, T)>>,
                 <<"nothing-left-behind", ~e.out.died => OthersSame(e, T)>> >>)
CheckFile(e) ==
  IF NoOp(e) THEN Failed(<< <<"no-op-succeeds", e.out.ok \/ e.in.fault>>, <<"no-op-changes-nothing", OthersSame(e, {})>> >>)
  ELSE IF ~TLCEval(Allowed(e))
       THEN Failed(<< <<"refused", ~e.out.ok>>, <<"refusal-changes-nothing", IF e.out.died THEN OthersKept(e, {}) ELSE OthersSame(e, {})>> >>)
  ELSE IF e.out.ok THEN Completed(e) \cup (IF e.op = "make" THEN MakeReadable(e) ELSE {})
  ELSE IF e.in.fault THEN Interrupted(e)
  ELSE {"done"}

(* --- analyze-wheel --------------------------------------------------------------------------- *)
CheckAnalyze(e) ==
  LET x == e.in  w == WheelName(x.namecp)
      ok == /\ x.exists
            /\ \/ w.kind = "plain"
               \/ w.kind = "variant" /\ FiledOk(Content(e, e.pre, x.file), StrOf(w.label))
      want == IF w.kind = "plain" THEN <<>>
              ELSE LET d == FiledMeta(Content(e, e.pre, x.file)).variants[1][2] IN [i \in 1..Len(d) |-> PropText(d[i])] IN
  Failed(<< <<"analysis-changes-nothing", OthersSame(e, {})>> >>) \cup
  (IF ~ok THEN Failed(<< <<"bad-wheel-refused", ~e.out.ok>> >>)
   ELSE IF ~e.out.ok THEN {"analysed"}
   ELSE Failed(<< <<"printed-properties", e.out.lines = want>>, <<"variant-shown", e.out.shown = (w.kind = "variant")>> >>))
=============================================================================
