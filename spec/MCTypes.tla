------------------------------- MODULE MCTypes -------------------------------
EXTENDS TypesM, Json
CONSTANTS Tier, Emit
S(x) == [t |-> "str", cp |-> Cp(x)]
P(x) == [t |-> x, a |-> <<"a", "b", "1">>]
One(x) == [t |-> x]
Seq1(c, x) == [t |-> c, xs |-> x]
Dct(c, x) == [t |-> c, kv |-> x]
Leaf == {S("a"), [t |-> "strsub", cp |-> <<97>>], One("int"), One("bool"), One("none"), P("prop"), P("propsub")}
LeafQ == IF Tier = "quick" THEN {S("a"), One("int"), One("bool"), P("prop"), P("propsub")} ELSE Leaf
UpTo(X, n) == UNION {[1..k -> X] : k \in 0..n}
SeqC == {"list", "listsub", "tuple", "gen"}
Flat1 == {Seq1(c, x) : c \in SeqC, x \in UpTo(LeafQ, 2)}
Key == {S("a"), One("int"), P("prop")}
Dict1 == {Dct(c, x) : c \in {"dict", "dictsub"}, x \in {<<>>} \cup {<< <<k, w>> >> : k \in Key, w \in LeafQ}}
In2 == {Seq1(c, x) : c \in {"list", "tuple"}, x \in UpTo({S("b"), One("int")}, 1)} \cup {S("ab")}
Deep == {Seq1(c, x) : c \in {"list", "tuple"}, x \in UpTo(In2, 2)}
        \cup {Dct("dict", x) : x \in {<< <<k, w>> >> : k \in Key, w \in In2}
                                     \cup {<< <<S("a"), w1>>, <<S("b"), w2>> >> : w1 \in In2, w2 \in In2}}
        \cup {Dct("dict", << <<k, Dct("dict", << <<S("x"), w>> >>)>> >>) : k \in Key, w \in In2}
Vals == Leaf \cup Flat1 \cup Dict1 \cup Deep
Atom == {TAny, TStr, Cls("int"), Cls("bool"), Cls("prop")}
Typ1 == {ListOf(x) : x \in Atom} \cup {IterOf(x) : x \in Atom} \cup {DictOf(x, y) : x \in {TAny, TStr}, y \in Atom}
Typs == (Atom \ {TAny}) \cup Typ1 \cup {Cls("list"), Cls("dict"), Cls("iter"), Cls("none"),
         ListOf(TNames), TFeatPrio, TPropPrio, DictOf(TStr, DictOf(TStr, TStr)), ListOf(IterOf(TStr))}
Init == TInit(Vals, Typs)
Next == TNext
Spec == Init /\ [][Next]_tvars
EmitDone == (Emit /\ verdict # "open") => PrintT("@@S " \o ToJson([v |-> val, T |-> typ, verdict |-> verdict]))
=============================================================================
