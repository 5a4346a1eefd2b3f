-------------------------------- MODULE MCWheel --------------------------------
EXTENDS WheelM, Json
CONSTANTS Tier, Emit
Fn1(p, c) == [q \in {p} |-> c]
Start1 == Fn1(<<"w", "P", "">>, Whl(""))
Start2 == [q \in {<<"w", "P", "">>, <<"o", "P", "x">>, <<"o", "Q", "x">>, <<"o", "Q", "y">>} |->
             CASE q = <<"w", "P", "">> -> Whl("") [] q = <<"o", "P", "x">> -> Whl("x1")
               [] q = <<"o", "Q", "x">> -> Whl("x2") [] OTHER -> Whl("y1")]
Init == /\ disk \in {Start1, Start2} /\ temps = 0 /\ pend = Idle /\ hist = <<>>
Small == <<"o", "Q", "y">> \notin DOMAIN disk
MaxOps == IF Tier = "quick" /\ ~Small THEN 2 ELSE 3
Faults == Cardinality({i \in 1..Len(hist) : hist[i].end # "done"})
Whls == {p \in DOMAIN disk : IsWhl(p)}
Ops == {[what |-> "make", src |-> p, dir |-> d, meta |-> m] : p \in Whls, d \in Dirs, m \in Metas}
       \cup {[what |-> "unmake", src |-> p, dir |-> d] : p \in Whls, d \in Dirs}
       \cup {[what |-> "generate", dir |-> d] : d \in Dirs}
       \cup {[what |-> "add", src |-> p, dir |-> "o"] : p \in Whls}
Next == \/ Len(hist) < MaxOps /\ \E op \in Ops : Begin(op)
        \/ Finish \/ Commit
        \/ Faults < 1 /\ (Kill \/ Fail)
Spec == Init /\ [][Next]_wvars
Flatten == LET S == SetToSortSeq(DOMAIN disk, LAMBDA p, q : StrLt(p[1] \o "/" \o p[2] \o "-" \o p[3], q[1] \o "/" \o q[2] \o "-" \o q[3]))
           IN [i \in 1..Len(S) |-> <<S[i], disk[S[i]]>>]
EmitInv == (Emit /\ Len(hist) = MaxOps /\ ~pend.busy) =>
  LET t == ToJson(hist) IN
  Len(t) % (IF Tier = "quick" THEN 7 ELSE 97) # 0 \/
  PrintT("@@S " \o ToJson([start |-> IF Small THEN 1 ELSE 2, hist |-> hist, disk |-> Flatten, temps |-> temps]))
=============================================================================
