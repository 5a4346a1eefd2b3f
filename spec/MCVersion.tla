------------------------------ MODULE MCVersion ------------------------------
EXTENDS VersionM, Json
CONSTANTS Tier, Emit
Toks == << Cp("1"), Cp("0"), Cp("."), Cp("-"), Cp("+"), Cp("!"), Cp("a"), Cp("rc"), Cp("post"), Cp("r"), Cp("dev"), Cp("x"), Cp("v"), Cp("_"), Cp("C") >>
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o Toks[f[n]]
Most == IF Tier = "quick" THEN 3 ELSE 4
Texts == {h \o Cat(f, n) : h \in {<<>>, Cp("1.2"), Cp("1a")}, n \in 0..Most, f \in [1..Most -> 1..Len(Toks)]}
Init == VInit(Texts)
Next == VNext
Spec == Init /\ [][Next]_vvars
(* what is between the parts does not matter *)
InvSpaces == st[1] = "yes" => ReleaseOf(<<32>> \o src \o <<9, 10>>) = nums
(* leading zeros do not matter *)
InvTriple == st[1] = "yes" => LET r == Triple(nums) IN \A k \in 1..3 : Len(r[k]) >= 1 /\ (Len(r[k]) > 1 => Chr(r[k], 1) # "0")
EmitDone == (Emit /\ st[1] \in {"yes", "no"}) => PrintT("@@S " \o ToJson([src |-> src, ok |-> st[1] = "yes", nums |-> nums]))
=============================================================================
