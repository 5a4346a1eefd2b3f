----------------------------- MODULE MCResolver -----------------------------
EXTENDS ResolverM, Json
CONSTANTS Tier, Emit
A1 == <<"a", "f", "1">>  A2 == <<"a", "f", "2">>  AG == <<"a", "g", "1">>
B1 == <<"b", "f", "1">>  B2 == <<"b", "f", "2">>
Pool == << <<>>, <<A1>>, <<A1, A2>>, <<A2>>, <<AG>>, <<A2, AG>>, <<B1>>, <<A2, B1>>, <<A1, B2>>, <<AG, B1, B2>> >>
Q == Tier = "quick"
DescLists == {<<Pool[i], Pool[j], Pool[k]>> : i \in 1..Len(Pool), j \in 2..Len(Pool), k \in (IF Q THEN {6, 10} ELSE 1..Len(Pool))}
Sups == { <<A1, A2, AG, B1, B2>>, <<B2, A2, B1, AG, A1>>, <<AG, A2>> }
        \cup (IF Q THEN {} ELSE { <<A2, AG, A1, B1>>, <<B1>>, <<>>, <<A1, B2, AG>>, <<B1, A1, B2, A2>>, <<AG, AG, A2, A1>> })
Prs == { [ns |-> n, feat |-> f, prop |-> p] :
           n \in { <<"a", "b">>, <<"b", "zz", "a">> },
           f \in { <<>>, << <<"a", <<"g", "x", "f">> >> >> },
           p \in { <<>>, << <<"a", << <<"f", <<"2", "9", "1">> >> >> >>, <<"b", << <<"f", <<"2">> >> >> >> >> } }
Forbs == { [n |-> <<>>, f |-> <<>>, p |-> <<>>], [n |-> <<"b">>, f |-> <<>>, p |-> <<>>],
           [n |-> <<>>, f |-> << <<"a", "f">> >>, p |-> <<>>], [n |-> <<>>, f |-> <<>>, p |-> <<A1, B2>>],
           [n |-> <<"a">>, f |-> << <<"b", "g">> >>, p |-> <<B1>>] }
Abis == { <<>>, AbiPropsOf("a", <<"1", "2", "0">>) }
Inputs == { [ds |-> d, sup |-> s, pr |-> p, abi |-> a, fn |-> x.n, ff |-> x.f, fp |-> x.p] :
              d \in DescLists, s \in Sups, p \in Prs, x \in Forbs, a \in (IF Q THEN {<<>>} ELSE Abis) }
Init == RInit(Inputs)
Next == RNext
Spec == Init /\ [][Next]_rvars
EmitDone == (Emit /\ phase = "done") => PrintT("@@S " \o ToJson([inp |-> inp, out |-> work]))
=============================================================================
