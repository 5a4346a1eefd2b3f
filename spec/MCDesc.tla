-------------------------------- MODULE MCDesc --------------------------------
(* Building a description from a list of properties: insertion into sorted order. *)
EXTENDS Text, Json
CONSTANTS Tier, Emit
VARIABLES given, done, built, status
dvars == <<given, done, built, status>>
P(n, f, v) == <<n, f, v>>
(* names chosen so that careless separators or orders would confuse them *)
PoolQ == << P("a", "b", "1"), P("a", "b", "1.0"), P("a", "b", "10"), P("a", "b_", "1"), P("aa", "b", "1"), P("a_", "b", "1"),
            P("a", "b1", "0"), P("0", "b", "1") >>
Pool == IF Tier = "quick" THEN PoolQ
        ELSE PoolQ \o << P("a", "b", "2"), P("a1", "b", "1"), P("b", "a", "1"), P("a", "b", "_"), P("a", "b", ".") >>
MaxLen == 3
Lists == UNION {[1..n -> Range(Pool)] : n \in 0..MaxLen}
Init == given \in Lists /\ done = 0 /\ built = <<>> /\ status = "open"
Ins(sq, p) ==
  LET k == Cardinality({i \in 1..Len(sq) : TupLt(sq[i], p)})
  IN SubSeq(sq, 1, k) \o <<p>> \o SubSeq(sq, k + 1, Len(sq))
Insert ==
  /\ status = "open" /\ done < Len(given)
  /\ IF given[done + 1] \in Range(built)
     THEN status' = "duplicate" /\ UNCHANGED <<given, done, built>>
     ELSE built' = Ins(built, given[done + 1]) /\ done' = done + 1 /\ UNCHANGED <<given, status>>
Finish == status = "open" /\ done = Len(given) /\ status' = "ok" /\ UNCHANGED <<given, done, built>>
Next == Insert \/ Finish
Spec == Init /\ [][Next]_dvars

InvSorted == IsCanon(built)
InvCanon == status = "ok" => built = Canon(given)
InvDup == (status = "ok" => NoDup(given)) /\ (status = "duplicate" => ~NoDup(given))
(* the canonical text can be decoded, so different sets have different texts *)
Lines(t) == LET D == {i \in 1..Len(t) : t[i] = 10}
                cuts == SetToSortSeq(D, LAMBDA x, y : x < y)
            IN [k \in 1..Len(cuts) |-> SubSeq(t, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, cuts[k] - 1)]
Decode(t) == LET ls == Lines(t) IN [k \in 1..Len(ls) |-> PartsOf(ls[k], "prop")]
InvDecodable == status = "ok" =>
  Decode(CpNL(CanonText(given))) = [i \in 1..Len(built) |-> [j \in 1..3 |-> Cp(built[i][j])]]
EmitDone == (Emit /\ status \in {"ok", "duplicate"}) =>
  PrintT("@@S " \o ToJson([given |-> given, status |-> status, built |-> built,
                           hash |-> IF status = "ok" THEN Hash(built) ELSE ""]))
=============================================================================
