-------------------------------- MODULE MCText --------------------------------
EXTENDS TextM, Json
CONSTANTS Tier, Emit
Toks == << <<97>>, <<57, 95>>, <<46>>, <<Colon>>, <<Colon, Colon>>, <<32>>, <<10>>, <<65>> >>
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o Toks[f[n]]
Len5 == IF Tier = "quick" THEN 5 ELSE 6
Short == {Cat(f, n) : n \in 0..Len5, f \in [1..Len5 -> 1..Len(Toks)]}
(* complete properties with optional spaces everywhere *)
Gap == {<<>>, <<9, 160>>}
Nm == {<<97>>, <<97, 46>>, <<95, 49>>}
CC == <<Colon, Colon>>
Long == {g[1] \o n1 \o g[2] \o CC \o g[3] \o n2 \o g[4] \o CC \o g[5] \o n3 \o g[6] :
           g \in [1..6 -> Gap], n1 \in Nm, n2 \in Nm, n3 \in Nm \cup {<<46>>, <<97, 233>>}}
(* wheel names out of fields *)
Fd == IF Tier = "quick" THEN { <<112>>, <<49, 46, 48>>, <<110, 117, 108, 108>>, <<88>> }
      ELSE { <<112>>, <<49, 46, 48>>, <<110, 117, 108, 108>>, <<88>>, <<>>, <<32>>, [i \in 1..17 |-> 97], [i \in 1..16 |-> 97] }
Odd == { <<>>, <<97, 32>>, [i \in 1..17 |-> 97], [i \in 1..16 |-> 97], <<48, 120>>, <<97, 43, 49>> }
RECURSIVE JoinF(_, _)
JoinF(f, n) == IF n = 1 THEN f[1] ELSE JoinF(f, n - 1) \o <<Dash>> \o f[n]
NameSet == {JoinF(f, n) \o e : n \in (IF Tier = "quick" THEN {5, 6} ELSE {4, 5, 6}), f \in [1..6 -> Fd], e \in {WhlCp}}
        \cup {JoinF(<< <<112>>, f[1], f[2], <<112, 121>>, <<97, 98>>, f[3], f[4]>>, n) \o e :
                n \in 4..7, f \in [1..4 -> Odd \cup {<<49>>}], e \in {WhlCp, <<46, 90, 105, 112>>}}
Init == \/ XInit(Short \cup Long) /\ mode # "wheel"
        \/ XInit(NameSet) /\ mode = "wheel"
Next == XNext
Spec == Init /\ [][Next]_xvars
EmitDone == (Emit /\ st \in {"yes", "no", "plain", "variant"}) =>
  PrintT("@@S " \o ToJson([mode |-> mode, src |-> src, st |-> st, got |-> got]))
=============================================================================
