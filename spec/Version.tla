------------------------------- MODULE Version -------------------------------
(* Versions of packages (PEP 440) and requests for ABI dependencies
   ("name==version,...") as sequences of code points. *)
EXTENDS Text

VLow(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
VLower(t) == [i \in 1..Len(t) |-> VLow(t[i])]
Alnum(c) == IsLow(c) \/ IsDig(c)
SepChar(c) == c \in {45, 46, 95}

(* Grammar: an operator maps a position in t to the positions after what it matches. *)
Many(t, i, P(_)) ==       \* one or more characters; every nonempty prefix
  LET RECURSIVE M(_)
      M(j) == IF j <= Len(t) /\ P(t[j]) THEN {j + 1} \cup M(j + 1) ELSE {}
  IN M(i)
Word(t, i, w) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w THEN {i + Len(w)} ELSE {}
Then(S, M(_)) == UNION {M(j) : j \in S}
Maybe(i, S) == {i} \cup S
OneSep(t, i) == Maybe(i, IF i <= Len(t) /\ SepChar(t[i]) THEN {i + 1} ELSE {})
WordsOf(kind) ==
  CASE kind = "pre" -> {Cp("a"), Cp("alpha"), Cp("b"), Cp("beta"), Cp("c"), Cp("rc"), Cp("pre"), Cp("preview")}
    [] kind = "post" -> {Cp("post"), Cp("rev"), Cp("r")}
    [] kind = "dev" -> {Cp("dev")}
(* separator? word separator? number? *)
Labelled(t, i, kind) ==
  LET afterSep == OneSep(t, i)
      afterWord == Then(afterSep, LAMBDA j : UNION {Word(t, j, w) : w \in WordsOf(kind)})
      afterSep2 == Then(afterWord, LAMBDA j : OneSep(t, j))
  IN afterSep2 \cup Then(afterSep2, LAMBDA j : Many(t, j, IsDig))
PostPart(t, i) == Labelled(t, i, "post")
                  \cup (IF i <= Len(t) /\ t[i] = 45 THEN Many(t, i + 1, IsDig) ELSE {})
LocalPart(t, i) ==
  LET RECURSIVE More(_)
      More(j) == LET S == Many(t, j, Alnum)
                 IN S \cup UNION {IF k <= Len(t) /\ SepChar(t[k]) THEN More(k + 1) ELSE {} : k \in S}
  IN IF i <= Len(t) /\ t[i] = 43 THEN More(i + 1) ELSE {}
Longest(i, S) == IF S = {} THEN i ELSE CHOOSE j \in S : \A k \in S : j >= k

(* the numbers of the release, <<>> if the text is no version *)
ReleaseOf(text) ==
  LET t == TLCEval(VLower(Trim(text)))
      v == IF Len(t) > 0 /\ t[1] = 118 THEN 2 ELSE 1
      d == Longest(v, Many(t, v, IsDig))
      start == IF d > v /\ d <= Len(t) /\ t[d] = 33 THEN d + 1 ELSE v
      RECURSIVE Rel(_, _)                       \* position, numbers so far
      Rel(i, acc) ==
        LET e == Longest(i, Many(t, i, IsDig))
            all == Append(acc, SubSeq(t, i, e - 1))
        IN IF e = i THEN <<i, <<>> >>
           ELSE IF e + 1 <= Len(t) /\ t[e] = 46 /\ IsDig(t[e + 1]) THEN Rel(e + 1, all)
           ELSE <<e, all>>
      r == TLCEval(Rel(start, <<>>))
      S0 == {r[1]}
      S1 == S0 \cup Then(S0, LAMBDA i : Labelled(t, i, "pre"))
      S2 == S1 \cup Then(S1, LAMBDA i : PostPart(t, i))
      S3 == S2 \cup Then(S2, LAMBDA i : Labelled(t, i, "dev"))
      S4 == S3 \cup Then(S3, LAMBDA i : LocalPart(t, i))
  IN IF r[2] = <<>> \/ (Len(t) + 1) \notin S4 THEN <<>> ELSE r[2]
IsVersion(text) == ReleaseOf(text) # <<>>
(* a number without leading zeros *)
Plain(n) == LET Z == {i \in 1..Len(n) : n[i] # 48}
            IN IF Z = {} THEN <<48>> ELSE SubSeq(n, CHOOSE i \in Z : \A j \in Z : i <= j, Len(n))
(* major, minor and micro number, as text *)
Triple(rel) == [k \in 1..3 |-> StrOf(IF k <= Len(rel) THEN Plain(rel[k]) ELSE <<48>>)]

(* names of packages: runs of separators are one underscore *)
CanonPkg(n) ==
  LET t == VLower(n)
      RECURSIVE J(_)
      J(i) == IF i > Len(t) THEN <<>>
              ELSE IF SepChar(t[i]) THEN (IF i > 1 /\ SepChar(t[i - 1]) THEN <<>> ELSE <<95>>) \o J(i + 1)
              ELSE <<t[i]>> \o J(i + 1)
  IN J(1)
NoPkg == [name |-> "", ok |-> FALSE, rel |-> <<"0", "0", "0">>]
Package(n, v) ==
  LET c == TLCEval(CanonPkg(n))
      r == TLCEval(ReleaseOf(v))
  IN IF NameTxt(c) /\ r # <<>> THEN [name |-> StrOf(c), ok |-> TRUE, rel |-> Triple(r)] ELSE NoPkg

(* the request: entries between commas, each name==version *)
Pieces(t, c) ==
  LET C == SetToSortSeq({i \in 1..Len(t) : t[i] = c}, LAMBDA a, b : a < b)
  IN [k \in 1..(Len(C) + 1) |-> SubSeq(t, IF k = 1 THEN 1 ELSE C[k - 1] + 1, IF k > Len(C) THEN Len(t) ELSE C[k] - 1)]
Request(piece) ==
  LET E == {i \in 1..(Len(piece) - 1) : piece[i] = 61 /\ piece[i + 1] = 61}
      k == CHOOSE i \in E : \A j \in E : i <= j
  IN IF E = {} THEN NoPkg ELSE Package(SubSeq(piece, 1, k - 1), SubSeq(piece, k + 2, Len(piece)))
Requests(raw) == IF raw = <<>> THEN <<>>
                 ELSE LET P == TLCEval(Pieces(raw, 44)) IN TLCEval([i \in 1..Len(P) |-> Request(P[i])])
Installed(ds) == TLCEval([i \in 1..Len(ds) |-> IF ds[i].has THEN Package(ds[i].name, ds[i].ver) ELSE NoPkg])
=============================================================================
