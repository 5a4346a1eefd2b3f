------------------------------ MODULE VersionM ------------------------------
(* Reading a version from left to right, one character at a time. *)
EXTENDS Version
VARIABLES src, at, st, word, nums
vvars == <<src, at, st, word, nums>>
(* st: what has just been read
     begin, v     nothing or the "v"          num     digits of the epoch or the release
     epoch        the "!"                     rel     digits of the release, after an epoch or a dot
     dot          a dot within the release or a separator
     sep          a separator before a word   minus   the same, but a post number may follow
     w            letters of words
     ksep, kminus separator after a word      kn      its number
     plus, loc, locsep   the local version
     yes, no *)
Kinds == <<"pre", "post", "dev">>
VInit(Texts) == src \in Texts /\ at = 1 /\ st = <<"begin", 0>> /\ word = <<>> /\ nums = <<>>
c0 == VLow(src[at])
Ended == at > Len(src)
Go(s, w, n) == st' = s /\ word' = w /\ nums' = n /\ at' = at + 1 /\ src' = src
Stop(s) == st' = s /\ UNCHANGED <<src, at, word, nums>>
Tail1(n) == [n EXCEPT ![Len(n)] = Append(@, c0)]
(* letters are words of kinds after k, one behind the other; the kind of the last, 0 if they are none *)
KindAfter(letters, k) ==
  LET RECURSIVE E(_, _)
      E(i, j) == IF i > Len(letters) THEN {j}
                 ELSE UNION {UNION {Then(Word(letters, i, w), LAMBDA n : E(n, m)) : w \in WordsOf(Kinds[m])} : m \in (j + 1)..3}
      R == E(1, k)
  IN IF R = {} THEN 0 ELSE CHOOSE m \in R : TRUE
Local(k) == c0 = 43 /\ Go(<<"plus", 0>>, <<>>, nums)
(* st[2]: the kind of word passed last *)
VNext ==
  LET s == st[1]  k == st[2] IN
  /\ s \notin {"yes", "no"}
  /\ IF Ended
     THEN CASE s \in {"num", "rel", "kn", "loc", "ksep", "kminus"} -> Stop(<<"yes", 0>>)
            [] s = "w" /\ KindAfter(word, k) > k -> Stop(<<"yes", 0>>)
            [] OTHER -> Stop(<<"no", 0>>)
     ELSE CASE s = "begin" /\ c0 = 118 -> Go(<<"v", 0>>, <<>>, nums)
            [] s \in {"begin", "v"} /\ IsDig(c0) -> Go(<<"num", 0>>, <<>>, << <<c0>> >>)
            [] s \in {"num", "rel"} /\ IsDig(c0) -> Go(st, <<>>, Tail1(nums))
            [] s = "num" /\ c0 = 33 -> Go(<<"epoch", 0>>, <<>>, <<>>)
            [] s = "epoch" /\ IsDig(c0) -> Go(<<"rel", 0>>, <<>>, << <<c0>> >>)
            [] s \in {"num", "rel"} /\ c0 = 46 -> Go(<<"dot", 0>>, <<>>, nums)
            [] s = "dot" /\ IsDig(c0) -> Go(<<"rel", 0>>, <<>>, Append(nums, <<c0>>))
            [] s \in {"num", "rel"} /\ c0 = 45 -> Go(<<"minus", 0>>, <<>>, nums)
            [] s \in {"num", "rel"} /\ c0 = 95 -> Go(<<"sep", 0>>, <<>>, nums)
            [] s \in {"num", "rel", "dot", "sep", "minus"} /\ IsLow(c0) /\ k < 3 -> Go(<<"w", k>>, <<c0>>, nums)
            [] s = "minus" /\ IsDig(c0) /\ k < 2 -> Go(<<"kn", 2>>, <<>>, nums)
            [] s = "w" /\ IsLow(c0) -> Go(st, Append(word, c0), nums)
            [] s = "w" /\ KindAfter(word, k) > k /\ SepChar(c0) -> Go(<<IF c0 = 45 THEN "kminus" ELSE "ksep", KindAfter(word, k)>>, <<>>, nums)
            [] s = "w" /\ KindAfter(word, k) > k /\ IsDig(c0) -> Go(<<"kn", KindAfter(word, k)>>, <<>>, nums)
            [] s \in {"w"} /\ KindAfter(word, k) > k /\ c0 = 43 -> Local(k)
            (* a separator after a word: its number, or another word, or another separator and a word *)
            [] s \in {"ksep", "kminus"} /\ IsDig(c0) -> Go(<<"kn", k>>, <<>>, nums)
            [] s \in {"ksep", "kminus"} /\ IsLow(c0) /\ k < 3 -> Go(<<"w", k>>, <<c0>>, nums)
            [] s \in {"ksep", "kminus"} /\ SepChar(c0) /\ k < 3 -> Go(<<IF c0 = 45 THEN "minus" ELSE "sep", k>>, <<>>, nums)
            [] s \in {"ksep", "kminus"} /\ c0 = 43 -> Local(k)
            [] s = "kn" /\ IsDig(c0) -> Go(st, <<>>, nums)
            [] s = "kn" /\ c0 = 45 /\ k < 3 -> Go(<<"minus", k>>, <<>>, nums)
            [] s = "kn" /\ SepChar(c0) /\ k < 3 -> Go(<<"sep", k>>, <<>>, nums)
            [] s = "kn" /\ IsLow(c0) /\ k < 3 -> Go(<<"w", k>>, <<c0>>, nums)
            [] s \in {"num", "rel", "kn"} /\ c0 = 43 -> Local(k)
            [] s \in {"plus", "locsep"} /\ Alnum(c0) -> Go(<<"loc", 0>>, <<>>, nums)
            [] s = "loc" /\ Alnum(c0) -> Go(<<"loc", 0>>, <<>>, nums)
            [] s = "loc" /\ SepChar(c0) -> Go(<<"locsep", 0>>, <<>>, nums)
            [] OTHER -> Stop(<<"no", 0>>)
InvVersion == /\ st[1] = "yes" => ReleaseOf(src) = nums
              /\ st[1] = "no" => ~IsVersion(src)
=============================================================================
