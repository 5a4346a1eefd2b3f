-------------------------------- MODULE MCDoc --------------------------------
(* Editing a document, then reading it: every single edit (thorough: every two
   edits) of the base documents is judged, written back and read again. *)
EXTENDS Meta, Json
CONSTANTS Tier, Emit
VARIABLES kind, doc, left, phase
cvars == <<kind, doc, left, phase>>
SL(s) == <<"l", [i \in 1..Len(s) |-> <<"s", s[i]>>]>>
D1(k, t) == <<"d", << <<k, t>> >> >>
BPrio(two) == <<"d", << <<"namespace", SL(<<"a", "b">>)>>, <<"feature", <<"d", << <<"b", SL(<<"f", "g">>)>>, <<"z", SL(<<>>)>> >> >> >>,
                       <<"property", D1("a", D1("f", SL(<<"1", "2.0">>)))>> >> >>
BProvA == <<"d", << <<"requires", SL(<<"pkg >=1", "q">>)>>, <<"enable-if", <<"s", "python_version > '3'">> >>,
                    <<"plugin-api", <<"s", "mod.x : obj">> >>, <<"optional", <<"b", TRUE>> >> >> >>
BProvB(req) == <<"d", << <<"install-time", <<"b", FALSE>> >> >> \o (IF req THEN << <<"requires", SL(<<"w">>)>> >> ELSE <<>>)>>
BStatic == D1("b", <<"d", << <<"f", SL(<<"1">>)>>, <<"g", SL(<<"x", "y">>)>> >> >>)
VarX == <<"x.1", D1("a", <<"d", << <<"f", SL(<<"2", "1">>)>>, <<"g", SL(<<>>)>> >> >>)>>
Body(req, vars) == << <<"default-priorities", BPrio(TRUE)>>, <<"providers", <<"d", << <<"a", BProvA>>, <<"b", BProvB(req)>> >> >> >>,
                      <<"static-properties", BStatic>> >> \o vars
Base(k) ==
  CASE k = "index" -> <<"d", Body(TRUE, << <<"variants", <<"d", << <<"null", None>>, VarX >> >> >> >>)>>
    [] k = "dist" -> <<"d", Body(TRUE, << <<"variants", <<"d", << VarX >> >> >> >>)>>
    [] k = "pyproject" -> D1("variant", <<"d", Body(FALSE, <<>>)>>)
RECURSIVE PathsOf(_)
PathsOf(t) ==
  {<<>>} \cup (IF IsL(t) THEN UNION {{<<i>> \o p : p \in PathsOf(t[2][i])} : i \in 1..Len(t[2])}
               ELSE IF IsD(t) THEN UNION {{<<i>> \o p : p \in PathsOf(t[2][i][2])} : i \in 1..Len(t[2])}
               ELSE {})
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(IF IsL(t) THEN t[2][p[1]] ELSE t[2][p[1]][2], Tail(p))
RECURSIVE SetAt(_, _, _)
SetAt(t, p, v) ==
  IF p = <<>> THEN v
  ELSE IF IsL(t) THEN <<"l", [t[2] EXCEPT ![p[1]] = SetAt(@, Tail(p), v)]>>
  ELSE <<"d", [t[2] EXCEPT ![p[1]] = <<@[1], SetAt(@[2], Tail(p), v)>>]>>
DropItem(sq, i) == SubSeq(sq, 1, i - 1) \o SubSeq(sq, i + 1, Len(sq))
Repl == { <<"z">>, <<"i", 1>>, <<"b", FALSE>>, <<"b", TRUE>>, <<"s", "">>, <<"s", "b">>, <<"s", "A b">>, <<"s", "1.0">>, <<"s", "x\ny">>,
          SL(<<>>), SL(<<"a">>), SL(<<"b", "a">>), SL(<<"a", "a">>), None, D1("a", None), D1("null", SL(<<"1">>)) }
NewKeys == {"a", "b", "c", "A", "null", "feature", "x-y", "extra"}
NewVals == { None, SL(<<"1">>), <<"b", TRUE>>, D1("f", SL(<<"1">>)), D1("requires", SL(<<"r">>)) }
Edits(t) ==
  UNION {LET u == At(t, p) IN
     {SetAt(t, p, v) : v \in {w \in Repl : Tag(w) # Tag(u) \/ w # u}}
     \cup (IF Tag(u) \in {"l", "d"} THEN {SetAt(t, p, <<Tag(u), DropItem(u[2], i)>>) : i \in 1..Len(u[2])} ELSE {})
     \cup (IF IsD(u) THEN {SetAt(t, p, <<"d", Append(u[2], <<k, v>>)>>) : k \in NewKeys \ Keys(u[2]), v \in NewVals} ELSE {})
     \cup (IF IsL(u) THEN {SetAt(t, p, <<"l", Append(u[2], v)>>) : v \in {<<"s", "c">>, <<"s", "a">>, <<"s", "g">>, <<"i", 0>>}} ELSE {})
     : p \in PathsOf(t)}
Init == /\ kind \in {"index", "dist", "pyproject"} /\ doc = Base(kind) /\ phase = "edit"
        /\ left = (IF Tier = "quick" THEN 1 ELSE 2)
\* (thorough: the second edit only follows the edits that keep the document acceptable)
Change == /\ phase = "edit" /\ left > 0 /\ Accepted(kind, doc, NoText)
          /\ \E d \in Edits(doc) : doc' = d
          /\ left' = left - 1 /\ UNCHANGED <<kind, phase>>
Judge == phase = "edit" /\ phase' = (IF Accepted(kind, doc, NoText) THEN "yes" ELSE "no") /\ UNCHANGED <<kind, doc, left>>
Next == Change \/ Judge
Spec == Init /\ [][Next]_cvars
M0 == Parse(kind, doc)
(* accepted metadata can be written and read back, in every form it is converted to *)
InvRoundTrip == phase = "yes" =>
  LET w == Write(kind, M0) IN Accepted(kind, w, NoText) /\ SameMeta(Parse(kind, w), M0)
InvConvert == (phase = "yes" /\ kind \in {"index", "dist"}) =>
  \A k2 \in {"index", "dist"} : kind = k2 \/ LET w == Write(k2, M0) IN Accepted(k2, w, NoText) = (k2 = "index" \/ Len(M0.variants) = 1)
                                                                       /\ SameMeta(Common(Parse(k2, w)), Common(M0))
InvMergeSelf == phase = "yes" => CanMerge(M0, M0) /\ Merge(M0, M0) = M0
InvNullLabel == (phase = "yes" /\ kind # "pyproject") =>
  \A i \in 1..Len(M0.variants) : (M0.variants[i][1] = "null") = (M0.variants[i][2] = Null)
EmitDone == (Emit /\ phase \in {"yes", "no"}) =>
  PrintT("@@S " \o ToJson([kind |-> kind, doc |-> doc, ok |-> (phase = "yes"),
                           meta |-> IF phase = "yes" THEN <<M0>> ELSE <<>>]))
=============================================================================
