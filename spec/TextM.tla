-------------------------------- MODULE TextM --------------------------------
(* Recognizing a property or feature, and a wheel file name, one character at a time. *)
EXTENDS Text
VARIABLES src, mode, at, st, cur, got
xvars == <<src, mode, at, st, cur, got>>
(* src: the text; at: next position; st: state of the recognizer;
   cur: the part being read; got: finished parts *)
XInit(Texts) == src \in Texts /\ mode \in {"prop", "feat", "wheel"} /\ at = 1 /\ cur = <<>> /\ got = <<>>
                /\ st = (IF mode = "wheel" THEN "field" ELSE "gap")
Ch1 == src[at]
PartCp(c) == IF Len(got) = 2 THEN ValueCp(c) ELSE NameCp(c)
To(s, c, g) == st' = s /\ cur' = c /\ got' = g /\ at' = at + 1 /\ UNCHANGED <<src, mode>>
Halt(s, g) == st' = s /\ got' = g /\ cur' = <<>> /\ at' = at /\ UNCHANGED <<src, mode>>
ReadText ==
  /\ mode # "wheel" /\ st \notin {"yes", "no"}
  /\ IF at > Len(src)
     THEN IF st \in {"part", "after"} /\ Len(got) = Arity(mode) - 1 THEN Halt("yes", Append(got, cur)) ELSE Halt("no", <<>>)
     ELSE CASE st = "gap" /\ WsCp(Ch1) -> To("gap", <<>>, got)
            [] st = "gap" /\ PartCp(Ch1) -> To("part", <<Ch1>>, got)
            [] st = "part" /\ PartCp(Ch1) -> To("part", Append(cur, Ch1), got)
            [] st = "part" /\ WsCp(Ch1) -> To("after", cur, got)
            [] st = "after" /\ WsCp(Ch1) -> To("after", cur, got)
            [] st \in {"part", "after"} /\ Ch1 = Colon /\ Len(got) < Arity(mode) - 1 -> To("colon", <<>>, Append(got, cur))
            [] st = "colon" /\ Ch1 = Colon -> To("gap", <<>>, got)
            [] OTHER -> Halt("no", <<>>)
(* a wheel name: collect the fields, then classify *)
ReadWheel ==
  /\ mode = "wheel" /\ st = "field"
  /\ IF at > Len(src)
     THEN IF Len(cur) > 4 /\ SubSeq(cur, Len(cur) - 3, Len(cur)) = WhlCp
          THEN Halt("fields", Append(got, SubSeq(cur, 1, Len(cur) - 4))) ELSE Halt("no", <<>>)
     ELSE CASE Ch1 = Dash /\ cur # <<>> -> To("field", <<>>, Append(got, cur))
            [] Ch1 # Dash /\ ~WsCp(Ch1) -> To("field", Append(cur, Ch1), got)
            [] OTHER -> Halt("no", <<>>)
ClassifyWheel ==
  /\ mode = "wheel" /\ st = "fields"
  /\ LET b == IF Len(got) >= 6 /\ IsDig(got[3][1]) THEN 1 ELSE 0
         n == Len(got) - b
     IN IF n = 5 THEN Halt("plain", got)
        ELSE IF n = 6 /\ Len(got[Len(got)]) <= 16 /\ ValueTxt(got[Len(got)]) THEN Halt("variant", got)
        ELSE Halt("no", <<>>)
XNext == ReadText \/ ReadWheel \/ ClassifyWheel

JoinDash(fs) == LET RECURSIVE J(_)
                    J(i) == IF i = Len(fs) THEN fs[i] ELSE fs[i] \o <<Dash>> \o J(i + 1)
                IN J(1)
(* the recognizer agrees with the definition *)
InvText == mode # "wheel" => /\ st = "yes" => got = PartsOf(src, mode)
                             /\ st = "no" => ~Accepts(src, mode)
(* writing the parts out gives a text denoting the same parts *)
InvRoundTrip == (mode # "wheel" /\ st = "yes") => PartsOf(TextOf(got), mode) = got
InvWheel == mode = "wheel" =>
  /\ st = "no" => WheelName(src).kind = "invalid"
  /\ st = "plain" => WheelName(src) = NameParse("plain", src, <<>>)
  /\ st = "variant" => WheelName(src) = NameParse("variant", JoinDash(SubSeq(got, 1, Len(got) - 1)) \o WhlCp, got[Len(got)])
(* the base name of a variant wheel is a plain wheel name, and adding the label gives the name back *)
InvBase == (mode = "wheel" /\ st = "variant") =>
  LET w == WheelName(src)
      b == w.base IN
  /\ WheelName(b).kind = "plain"
  /\ SubSeq(b, 1, Len(b) - 4) \o <<Dash>> \o w.label \o WhlCp = src
=============================================================================
