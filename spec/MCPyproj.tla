-------------------------------- MODULE MCPyproj --------------------------------
EXTENDS PyprojM, TLC, Json
CONSTANTS Tier, Emit
VARIABLES first
Names == {"a", "b", "x"}
Ranks == {s \in UNION {[1..k -> Names] : k \in 0..3} : Cardinality(Range(s)) = Len(s)}
Entries == {[api |-> "old", req |-> "mine", inst |-> TRUE], [api |-> "", req |-> "mine", inst |-> TRUE],
            [api |-> "old", req |-> "", inst |-> FALSE]}
(* (also files with providers that are not install-time: their edits are specified too) *)
Start == UNION {{[rank |-> s, provs |-> p, static |-> {n \in Range(s) : NeedsStatic(p[n])}] :
                   p \in [Range(s) -> Entries]} : s \in Ranks}
Lists == {<<>>, <<"a">>, <<"x">>, <<"b", "a">>, <<"a", "x">>, <<"b">>}
MaxOps == IF Tier = "quick" THEN 2 ELSE 3
Init == /\ file \in Start /\ copy = file /\ todo = Idle /\ hist = <<>> /\ first = file
Next == /\ first' = first
        /\ \/ Len(hist) < MaxOps /\ \E d \in Lists, a \in Lists : Request(d, a)
           \/ DelStep \/ AddStep \/ Write
Spec == Init /\ [][Next]_<<yvars, first>>
View == <<file, copy, todo, InstallTimeOnly(first), IF hist = <<>> THEN <<>> ELSE <<Last>>, Len(hist)>>
(* what is not valid stays so only because of providers that are not install-time *)
InvStart == InstallTimeOnly(first) => Valid(file)
EmitInv == (Emit /\ ~todo.on /\ Len(hist) = MaxOps) =>
  PrintT("@@S " \o ToJson([first |-> [rank |-> first.rank, provs |-> [i \in 1..Len(first.rank) |-> <<first.rank[i], first.provs[first.rank[i]]>>]],
                           hist |-> hist]))
=============================================================================
