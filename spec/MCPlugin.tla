-------------------------------- MODULE MCPlugin --------------------------------
EXTENDS PluginM, Json
CONSTANTS Tier, Emit
(* L1: p; L2: p and q; L3: p of another interpreter; L4: nothing *)
MCPlugs(l) == CASE l = "L2" -> {"p", "q"} [] l = "L4" -> {} [] OTHER -> {"p"}
MCInterp(l) == IF l = "L3" THEN "x" ELSE "d"
Init == /\ beh = [i \in Interps |-> [p \in Plugs |-> "v1"]]
        /\ mem = [q \in {} |-> ""] /\ truth = [q \in {} |-> ""] /\ inside = {} /\ hist = <<>>
MaxOps == IF Tier = "quick" THEN 6 ELSE 9
Settable == {<<"d", "p", b>> : b \in Behaviours} \cup {<<"d", "q", "fail">>, <<"d", "q", "v1">>, <<"x", "p", "v2">>}
AskKinds(l) == IF l \in {"L1", "L3"} THEN {"all", "sup"} ELSE {"sup"}
Next == /\ Len(hist) < MaxOps
        /\ \/ \E x \in Settable : Set(x[1], x[2], x[3])
           \/ \E l \in Loaders : Enter(l) \/ Leave(l) \/ \E k \in AskKinds(l) : Ask(l, k)
Spec == Init /\ [][Next]_pvars
(* states are told apart by what is stored and by the last operation and its outcome *)
View == <<beh, mem, truth, inside, IF hist = <<>> THEN <<>> ELSE <<Last>>, Len(hist)>>
EmitInv == (Emit /\ Len(hist) = MaxOps /\ hist[MaxOps].op.what # "set") =>
  LET t == ToJson(hist) IN
  (Len(t) * 7 + Cardinality(inside) + Cardinality(DOMAIN mem)) % (IF Tier = "quick" THEN 97 ELSE 1009) # 0
  \/ PrintT("@@S " \o ToJson([hist |-> hist]))
=============================================================================
