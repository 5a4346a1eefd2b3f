------------------------------- MODULE Sha256 -------------------------------
(* SHA-256 over sequences of bytes.  Words are pairs of 16-bit halves, because
   TLC's numbers have 32 bits with a sign. *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

RoundK ==
  << <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>,
  <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265,
  34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
  <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060,
  33962>>, <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>,
  <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167,
  2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>,
  <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052,
  20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>,
  <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452,
  51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>> >>
InitH ==
  << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>,
  <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>

WAdd(a, b) == LET lw == a[2] + b[2] IN <<(a[1] + b[1] + lw \div 65536) % 65536, lw % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P2(n) == Pow2[n + 1]
Rot16(a, n) ==
  <<a[1] \div P2(n) + (a[2] % P2(n)) * P2(16 - n), a[2] \div P2(n) + (a[1] % P2(n)) * P2(16 - n)>>
Rotr(a, n) == IF n >= 16 THEN Rot16(<<a[2], a[1]>>, n - 16) ELSE Rot16(a, n)
Shr(a, n) == <<a[1] \div P2(n), a[2] \div P2(n) + (a[1] % P2(n)) * P2(16 - n)>>   \* n <= 16

Big0(x)   == WXor(Rotr(x, 2), WXor(Rotr(x, 13), Rotr(x, 22)))
Big1(x)   == WXor(Rotr(x, 6), WXor(Rotr(x, 11), Rotr(x, 25)))
Small0(x) == WXor(Rotr(x, 7), WXor(Rotr(x, 18), Shr(x, 3)))
Small1(x) == WXor(Rot16(<<x[2], x[1]>>, 1), WXor(Rotr(x, 19), Shr(x, 10)))
Ch(x, y, z)  == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WAnd(x, y), WXor(WAnd(x, z), WAnd(y, z)))

Upto(n) == [i \in 1..n |-> i]
Sched(blk) ==     \* blk: 16 words
  FoldLeft(LAMBDA w, t : Append(w, WAdd(WAdd(Small1(w[t - 2]), w[t - 7]), WAdd(Small0(w[t - 15]), w[t - 16]))),
           blk, [i \in 1..48 |-> i + 16])
Round(st, kt, wt) ==
  LET t1 == WAdd(WAdd(WAdd(st[8], Big1(st[5])), WAdd(Ch(st[5], st[6], st[7]), kt)), wt)
      t2 == WAdd(Big0(st[1]), Maj(st[1], st[2], st[3]))
  IN TLCEval(<<WAdd(t1, t2), st[1], st[2], st[3], WAdd(st[4], t1), st[5], st[6], st[7]>>)
Compress(h, blk) ==
  LET w == TLCEval(Sched(blk))
      r == TLCEval(FoldLeft(LAMBDA st, t : Round(st, RoundK[t], w[t]), h, Upto(64)))
  IN TLCEval([i \in 1..8 |-> WAdd(h[i], r[i])])

Padded(b) ==
  LET n == Len(b)
      z == (55 - n) % 64        \* TLC: result of % is never negative
      bits == n * 8
  IN b \o <<128>> \o [i \in 1..(IF z < 0 THEN z + 64 ELSE z) |-> 0] \o <<0, 0, 0, 0>>
       \o <<bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
Words(b) == TLCEval([i \in 1..(Len(b) \div 4) |->
  <<b[4 * i - 3] * 256 + b[4 * i - 2], b[4 * i - 1] * 256 + b[4 * i]>>])
Digest(b) ==
  LET w == Words(TLCEval(Padded(b)))
  IN FoldLeft(LAMBDA h, k : Compress(h, SubSeq(w, 16 * k - 15, 16 * k)), InitH, Upto(Len(w) \div 16))

HexD == "0123456789abcdef"
Hex4(n) ==
  LET d(k) == SubSeq(HexD, k + 1, k + 1)
  IN d(n \div 4096) \o d((n \div 256) % 16) \o d((n \div 16) % 16) \o d(n % 16)
HexWord(w) == Hex4(w[1]) \o Hex4(w[2])

ASSUME HexWord(Digest(<<>>)[1]) = "e3b0c442"
ASSUME HexWord(Digest(<<97, 98, 99>>)[1]) = "ba7816bf"
ASSUME HexWord(Digest([i \in 1..64 |-> 97])[1]) = "ffe054fe"
=============================================================================
