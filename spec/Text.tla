-------------------------------- MODULE Text --------------------------------
(* Text as sequences of code points: properties, features, labels, wheel file
   names, canonical text and hash of a variant, and the marker environment. *)
EXTENDS Variant, Sha256

(* --- characters ----------------------------------------------------------- *)
IsLow(c)   == c >= 97 /\ c <= 122
IsDig(c)   == c >= 48 /\ c <= 57
NameCp(c)  == IsLow(c) \/ IsDig(c) \/ c = 95
ValueCp(c) == NameCp(c) \/ c = 46
(* white space as Python's text type knows it *)
WsCp(c) == \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 32) \/ c = 133 \/ c = 160
           \/ c = 5760 \/ (c >= 8192 /\ c <= 8202) \/ c = 8232 \/ c = 8233
           \/ c = 8239 \/ c = 8287 \/ c = 12288
Colon == 58
Dash  == 45
Cp(s) == TLCEval([i \in 1..Len(s) |-> Ord(Chr(s, i))])     \* ASCII text without control characters
CpNL(s) == TLCEval([i \in 1..Len(s) |-> IF Chr(s, i) = "\n" THEN 10 ELSE Ord(Chr(s, i))])

AsciiTab == TLCEval([c \in 32..126 |-> Chr(ASCII, c - 31)])
StrOf(t) == LET RECURSIVE J(_)                      \* the inverse of Cp
                J(i) == IF i > Len(t) THEN "" ELSE AsciiTab[t[i]] \o J(i + 1)
            IN J(1)

AllOver(t, P(_)) == Len(t) > 0 /\ \A i \in 1..Len(t) : P(t[i])
NameTxt(t)  == AllOver(t, NameCp)
ValueTxt(t) == AllOver(t, ValueCp)
LabelTxt(t) == ValueTxt(t) /\ Len(t) <= 16

Trim(t) ==
  LET I == {i \in 1..Len(t) : ~WsCp(t[i])}
  IN IF I = {} THEN <<>>
     ELSE SubSeq(t, CHOOSE i \in I : \A j \in I : i <= j, CHOOSE i \in I : \A j \in I : i >= j)

(* --- properties and features as text -------------------------------------- *)
(* the parts of t between occurrences of "::"; no accepted text has ":::" *)
ColonsAt(t) == {i \in 1..(Len(t) - 1) : t[i] = Colon /\ t[i + 1] = Colon}
CutAt(t, cuts) ==      \* cuts: increasing positions of "::"
  [k \in 1..(Len(cuts) + 1) |->
     SubSeq(t, IF k = 1 THEN 1 ELSE cuts[k - 1] + 2, IF k > Len(cuts) THEN Len(t) ELSE cuts[k] - 1)]
Arity(kind) == IF kind = "prop" THEN 3 ELSE 2
(* the parts denoted by an accepted text, <<>> if it is not accepted *)
PartsOf(t, kind) ==
  LET C == ColonsAt(t)
      cuts == SetToSortSeq(C, LAMBDA a, b : a < b)
      raw == CutAt(t, cuts)
      ps == TLCEval([k \in 1..Len(raw) |-> Trim(raw[k])])
  IN IF /\ Cardinality(C) = Arity(kind) - 1
        /\ \A k \in 1..Len(ps) : IF k = 3 THEN ValueTxt(ps[k]) ELSE NameTxt(ps[k])
     THEN ps ELSE <<>>
Accepts(t, kind) == PartsOf(t, kind) # <<>>
SepCp == <<32, Colon, Colon, 32>>
TextOf(ps) == LET RECURSIVE J(_)
                  J(i) == IF i = Len(ps) THEN ps[i] ELSE ps[i] \o SepCp \o J(i + 1)
              IN J(1)

(* --- canonical text and hash ----------------------------------------------- *)
Hash(props) == HexWord(Digest(CpNL(CanonText(props)))[1])
HashOfText(t) == HexWord(Digest(CpNL(t))[1])

(* --- labels ------------------------------------------------------------------ *)
NullLabel == "null"
NullCp == <<110, 117, 108, 108>>
LabelOk(isnull, custom) == IF isnull THEN custom = NullCp ELSE custom # NullCp /\ LabelTxt(custom)

(* --- wheel file names -------------------------------------------------------- *)
(* name-version[-build]-python-abi-platform[-label].whl *)
WhlCp == <<46, 119, 104, 108>>
Fields(t) ==           \* split at every dash
  LET D == {i \in 1..Len(t) : t[i] = Dash}
      cuts == SetToSortSeq(D, LAMBDA a, b : a < b)
  IN [k \in 1..(Len(cuts) + 1) |->
        SubSeq(t, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, IF k > Len(cuts) THEN Len(t) ELSE cuts[k] - 1)]
Solid(t) == AllOver(t, LAMBDA c : ~WsCp(c))
BuildTxt(t) == Solid(t) /\ IsDig(t[1])
NameParse(kind, base, label) == [kind |-> kind, base |-> base, label |-> label]
NotWheel == NameParse("invalid", <<>>, <<>>)
WheelName(t) ==
  LET n == Len(t) IN
  IF n < 4 \/ SubSeq(t, n - 3, n) # WhlCp THEN NotWheel
  ELSE LET stem == SubSeq(t, 1, n - 4)
           fs == TLCEval(Fields(stem))
           k == Len(fs)
           solid == \A i \in 1..k : Solid(fs[i])
           without == SubSeq(stem, 1, Len(stem) - Len(fs[k]) - 1) \o WhlCp
       IN IF ~solid THEN NotWheel
          ELSE IF k = 5 THEN NameParse("plain", t, <<>>)
          ELSE IF k = 6 /\ BuildTxt(fs[3]) THEN NameParse("plain", t, <<>>)
          ELSE IF k = 6 /\ LabelTxt(fs[6]) THEN NameParse("variant", without, fs[6])
          ELSE IF k = 7 /\ BuildTxt(fs[3]) /\ LabelTxt(fs[7]) THEN NameParse("variant", without, fs[7])
          ELSE NotWheel

(* --- environment for markers -------------------------------------------------- *)
EnvNs(d)    == {d[i][1] : i \in 1..Len(d)}
EnvFeat(d)  == {FeatText(FeatOf(d[i])) : i \in 1..Len(d)}
EnvProp(d)  == {PropText(d[i]) : i \in 1..Len(d)}
=============================================================================
