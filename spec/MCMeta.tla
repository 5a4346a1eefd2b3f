-------------------------------- MODULE MCMeta --------------------------------
EXTENDS MetaM, Json
CONSTANTS Tier, Emit
SL(s) == <<"l", [i \in 1..Len(s) |-> <<"s", s[i]>>]>>
D1(k, t) == <<"d", << <<k, t>> >> >>
Doc(vars, prio) ==
  << <<"default-priorities", <<"d", << <<"namespace", SL(<<"a", "b">>)>>, <<"feature", D1("a", SL(prio))>>,
                                       <<"property", D1("a", D1("f", SL(<<"1">>)))>> >> >> >>,
     <<"providers", <<"d", << <<"a", D1("requires", SL(<<"p">>))>>, <<"b", D1("install-time", <<"b", FALSE>>)>> >> >> >>,
     <<"static-properties", D1("b", D1("f", SL(<<"1">>)))>> >> \o vars
V(l, t) == <<l, t>>
Vars(vs) == << <<"variants", <<"d", vs>> >> >>
VA(x) == D1("a", D1("f", SL(<<x>>)))
DistX  == <<"dist", <<"d", Doc(Vars(<< V("x", VA("1")) >>), <<"f">>)>> >>
DistX2 == <<"dist", <<"d", Doc(Vars(<< V("x", VA("2")) >>), <<"f">>)>> >>
DistN  == <<"dist", <<"d", Doc(Vars(<< V("null", None) >>), <<"f">>)>> >>
DistP  == <<"dist", <<"d", Doc(Vars(<< V("y", VA("1")) >>), <<"g", "f">>)>> >>
Index2 == <<"index", <<"d", Doc(Vars(<< V("y", VA("1")), V("null", None) >>), <<"f">>)>> >>
Proj   == <<"pyproject", D1("variant", <<"d", Doc(<<>>, <<"f">>)>>)>>
Bad    == <<"dist", <<"d", Doc(Vars(<< V("null", VA("1")) >>), <<"f">>)>> >>
Docs == << DistX, DistX2, DistN, DistP, Index2, Proj >> \o (IF Tier = "quick" THEN <<>> ELSE <<Bad>>)
E(w, n, f, v) == [what |-> w, n |-> n, f |-> f, v |-> v]
Edits == { E("ns-append", "", "", "zz"), E("feat-append", "a", "", "q"), E("prop-append", "a", "f", "9"),
           E("static-append", "b", "f", "9"), E("req-append", "a", "", "r"), E("prov-opt", "a", "", ""),
           [what |-> "var-put", n |-> "w", f |-> "", v |-> "", d |-> << <<"b", "f", "1">> >>], E("var-pop", "x", "", "") }
         \cup (IF Tier = "quick" THEN {} ELSE { E("feat-pop", "a", "", ""), E("prop-pop", "a", "f", ""), E("static-set", "b", "f", "7"),
               E("prov-pop", "a", "", ""), E("prov-api", "a", "", "m:o") })
MaxOps == 4
MaxObj == IF Tier = "quick" THEN 3 ELSE 3
Init == store = <<>> /\ log = <<>>
Next == /\ Len(log) < MaxOps
        /\ \/ Len(store) < MaxObj /\ \E n \in 1..Len(Docs) : Load(n, Docs[n][1], Docs[n][2])
           \/ Len(store) < MaxObj /\ \E i \in 1..Len(store), k \in {"index", "dist", "pyproject"} : k # store[i].kind /\ ConvertO(i, k)
           \/ \E i \in 1..Len(store), e \in Edits : (store[i].kind # "pyproject" \/ e.what \notin {"var-put", "var-pop"}) /\ EditO(i, e)
           \/ \E i, j \in 1..Len(store) : i # j /\ store[i].kind # "pyproject" /\ store[j].kind # "pyproject" /\ MergeO(i, j)
EmitLast == (Emit /\ Len(log) = MaxOps /\ Len(store) >= 2) =>
  PrintT("@@S " \o ToJson([log |-> log, store |-> store]))
Spec == Init /\ [][Next]_mvars
EmitDone == /\ (Emit /\ log = <<>>) => PrintT("@@S " \o ToJson([docs |-> Docs]))
            /\ EmitLast
=============================================================================
