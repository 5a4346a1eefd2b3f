-------------------------------- MODULE MCConfig --------------------------------
EXTENDS ConfigM, TLC, Json
CONSTANTS Tier, Emit
VARIABLES first    \* the files at the beginning
Init == /\ files \in [{Locations[i] : i \in 1..N} -> States]
        /\ first = files /\ scan = 0 /\ asked = "" /\ hist = <<>>
MaxOps == IF Tier = "quick" THEN 3 ELSE 5
Next == /\ first' = first
        /\ \/ Look
           \/ /\ Len(hist) < MaxOps
              /\ \/ \E l \in DOMAIN files, c \in States : Set(l, c)
                 \/ \E k \in {"get", "show", "resolve"} : Ask(k)
                 \/ \E l \in DOMAIN files : ShowAt(l)
Spec == Init /\ [][Next]_<<cvars, first>>
View == <<files, scan, asked, IF hist = <<>> THEN <<>> ELSE <<Last>>, Len(hist)>>
EmitInv == (Emit /\ scan = 0 /\ Len(hist) = MaxOps /\ Last.op.what # "set") =>
  (Tier # "quick" /\ Len(ToJson(hist)) % 5 # 0) \/ PrintT("@@S " \o ToJson([first |-> first, hist |-> hist]))
=============================================================================
