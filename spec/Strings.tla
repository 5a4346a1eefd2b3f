------------------------------ MODULE Strings ------------------------------
(* Text and small collection helpers shared by all modules.  TLC treats a
   string as a sequence of one-character strings for Len, SubSeq and \o. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

INF == 1000000

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(s, i) == SubSeq(s, i, i)
Chars(s) == {Chr(s, i) : i \in 1..Len(s)}
OrdTab == TLCEval([c \in Chars(ASCII) |-> 31 + (CHOOSE i \in 1..Len(ASCII) : Chr(ASCII, i) = c)])
Ord(c) == IF c \in DOMAIN OrdTab THEN OrdTab[c] ELSE 1000

Digits == Chars("0123456789")
Lowers == Chars("abcdefghijklmnopqrstuvwxyz")
Uppers == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
NameChars  == Lowers \cup Digits \cup {"_"}          \* namespaces and features
ValueChars == NameChars \cup {"."}                   \* values and labels
LowerTab == TLCEval([c \in Uppers |-> Chr("abcdefghijklmnopqrstuvwxyz", Ord(c) - 64)])
LowerC(c) == IF c \in Uppers THEN LowerTab[c] ELSE c

IsOver(s, cs) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in cs
IsName(s)  == IsOver(s, NameChars)
IsValue(s) == IsOver(s, ValueChars)
IsLabel(s) == IsOver(s, ValueChars) /\ Len(s) <= 16

(* TLCEval: TLC otherwise evaluates a function anew at every application *)

(* strict order of code points, as used by Python's str comparison *)
RECURSIVE StrLtFrom(_, _, _)
StrLtFrom(a, b, i) ==
  IF i > Len(a) THEN i <= Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF Chr(a, i) = Chr(b, i) THEN StrLtFrom(a, b, i + 1)
  ELSE Ord(Chr(a, i)) < Ord(Chr(b, i))
StrLt(a, b) == a # b /\ StrLtFrom(a, b, 1)

(* lexicographic order of two tuples of strings of equal length *)
RECURSIVE TupLtFrom(_, _, _)
TupLtFrom(a, b, i) ==
  i <= Len(a) /\ IF a[i] = b[i] THEN TupLtFrom(a, b, i + 1) ELSE StrLt(a[i], b[i])
TupLt(a, b) == TupLtFrom(a, b, 1)

(* lexicographic order of two tuples of numbers of equal length *)
RECURSIVE NumLtFrom(_, _, _)
NumLtFrom(a, b, i) ==
  i <= Len(a) /\ IF a[i] = b[i] THEN NumLtFrom(a, b, i + 1) ELSE a[i] < b[i]
NumLt(a, b) == NumLtFrom(a, b, 1)

Range(s) == {s[i] : i \in DOMAIN s}
StableSort(s, Less(_, _)) ==
  LET idx == SortSeq(TLCEval([i \in 1..Len(s) |-> i]),
                     LAMBDA i, j : Less(s[i], s[j]) \/ (~Less(s[j], s[i]) /\ i < j))
  IN TLCEval([i \in 1..Len(s) |-> s[idx[i]]])
SortStrings(s) == StableSort(s, StrLt)

(* sequence without later repetitions of an element *)
RECURSIVE DedupFrom(_, _, _)
DedupFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE DedupFrom(s, i + 1, IF \E j \in 1..Len(acc) : acc[j] = s[i] THEN acc ELSE Append(acc, s[i]))
Dedup(s) == DedupFrom(s, 1, <<>>)
NoDup(s) == Cardinality(Range(s)) = Len(s)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE SetToSortedStrings(_)
SetToSortedStrings(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ StrLt(x, y)
       IN <<m>> \o SetToSortedStrings(S \ {m})

(* 1-based position of the first x in s, INF if absent *)
Pos(s, x) ==
  LET D == {i \in 1..Len(s) : s[i] = x}
  IN IF D = {} THEN INF ELSE CHOOSE i \in D : \A j \in D : i <= j

(* mappings are passed as sequences of <<key, value>> pairs *)
Keys(m) == {m[i][1] : i \in 1..Len(m)}
HasKey(m, k) == k \in Keys(m)
Get(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
GetOr(m, k, d) == IF HasKey(m, k) THEN Get(m, k) ELSE d
SameMap(a, b) == Keys(a) = Keys(b) /\ \A k \in Keys(a) : Get(a, k) = Get(b, k)
(* a mapping given by a set of keys and a function *)
SetToSeqMap(S, F(_)) ==
  IF S = {} THEN <<>>
  ELSE LET RECURSIVE M(_)
           M(T) == IF T = {} THEN <<>>
                   ELSE LET k == CHOOSE k \in T : TRUE IN << <<k, F(k)>> >> \o M(T \ {k})
       IN M(S)
MapFn(m) == [k \in Keys(m) |-> Get(m, k)]

Filter(s, P(_)) == SelectSeq(s, P)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
JoinWith(parts, sep) ==
  LET RECURSIVE J(_)
      J(i) == IF i > Len(parts) THEN ""
              ELSE IF i = Len(parts) THEN parts[i] ELSE parts[i] \o sep \o J(i + 1)
  IN J(1)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
=============================================================================
