-------------------------------- MODULE TypesM --------------------------------
(* Checking a value against a type, one obligation at a time and in any order,
   stopping at the first that fails. *)
EXTENDS Types
VARIABLES val, typ, pend, verdict
tvars == <<val, typ, pend, verdict>>
TInit(Vals, Typs) == /\ val \in Vals /\ typ \in Typs
                     /\ pend = {<< <<>>, val, typ>>} /\ verdict = "open"
(* pend: obligations, each with where it came from, so that equal ones stay apart *)
Discharge(p) ==
  /\ verdict = "open" /\ p \in pend
  /\ IF ~Shallow(p[2], p[3]) THEN verdict' = "no" /\ pend' = {}
     ELSE LET O == Obligations(p[2], p[3])
              rest == (pend \ {p}) \cup {<<Append(p[1], i), O[i][1], O[i][2]>> : i \in 1..Len(O)}
          IN pend' = rest /\ verdict' = (IF rest = {} THEN "yes" ELSE "open")
  /\ UNCHANGED <<val, typ>>
TNext == \E p \in pend : Discharge(p)
(* the order does not matter: the outcome is the definition's *)
InvVerdict == /\ verdict = "yes" => Conforms(val, typ)
              /\ verdict = "no" => ~Conforms(val, typ)
InvOpen == verdict = "open" => (Conforms(val, typ) <=> \A p \in pend : Conforms(p[2], p[3]))
(* a laxer type accepts at least as much *)
RECURSIVE Laxer(_)
Laxer(T) == {TAny} \cup (CASE T.k = "listof" -> {Cls("list"), ListOf(TAny), IterOf(T.of), Cls("iter")}
                           [] T.k = "setof" -> {[k |-> "setof", of |-> TAny], IterOf(T.of), Cls("iter")}
                           [] T.k = "iterof" -> {Cls("iter"), IterOf(TAny)}
                           [] T.k = "dictof" -> {Cls("dict"), DictOf(TAny, T.val), DictOf(T.key, TAny), IterOf(T.key)}
                                                \cup {DictOf(T.key, U) : U \in Laxer(T.val)}
                           [] T.k = "str" -> {Cls("iter"), IterOf(TStr)}
                           [] OTHER -> {})
InvLaxer == verdict = "yes" => \A U \in Laxer(typ) : Conforms(val, U)
(* an empty container conforms to every type of its kind *)
=============================================================================
