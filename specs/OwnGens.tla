------------------------------ MODULE OwnGens ------------------------------
(***************************************************************************)
(* The project's own generators (C25), by their defining recurrences.  Words   *)
(* are byte sequences (Words).  Every operator gives the first n outputs for a  *)
(* seed s; K is the output sequence of the seeding generator for s, where one    *)
(* is used.                                                                       *)
(***************************************************************************)
EXTENDS Words, Integers
(* n outputs of a machine: Next(st) = <<output, new state>> *)
Walk(Next(_), st, n) ==
  FoldLeft(LAMBDA a, i : LET r == Next(a[2]) IN TLCEval(<<Append(a[1], r[1]), r[2]>>), <<<<>>, st>>, [i \in 1..n |-> i])[1]

(* -- KISS ------------------------------------------------------------------ *)
RECURSIVE FirstNonZero(_, _)
FirstNonZero(K, i) == IF K[i] # Zero(4) THEN i ELSE FirstNonZero(K, i + 1)
KissA == <<125, 80, 191, 18>>            \* 314527869
KissB == <<135, 214, 18, 0>>             \* 1234567
KissM == <<73, 40, 250, 255>>            \* 4294584393
KissStart(K) == LET j == FirstNonZero(K, 2) IN
  [x |-> K[1], y |-> K[j], z |-> K[j + 1], c |-> W4(Mod(K[j + 2], 698769068) + 1)]
KissNext(s) ==
  LET x == Add(Mul(KissA, s.x, 4), KissB)
      y1 == WXor(s.y, Shl(s.y, 5))
      y2 == WXor(y1, Shr(y1, 7))
      y == WXor(y2, Shl(y2, 22))
      t == Add(Mul(KissM, s.z, 8), Low(s.c, 8))
      z == Low(t, 4)
  IN <<Add(Add(x, y), z), [x |-> x, y |-> y, z |-> z, c |-> High(t, 4)]>>
Kiss(K, n) == Walk(KissNext, KissStart(K), n)

(* -- SuperKISS: lag-41790 multiply-with-carry, complemented; LCG; xorshift --- *)
SkA == <<128, 247, 106, 0>>              \* 7010176
SkQ == 41790
SkStep(a, q, v, keep) ==                  \* a: [c, g, x, q (kept new words), ok, i]
  LET t == Add(Mul(SkA, q, 8), Low(a.c, 8))
      w == WNot(Low(t, 4))
      g == Add(Mul(<<205, 13, 1, 0>>, a.g, 4), W4(123))
      x1 == WXor(a.x, Shl(a.x, 13))
      x2 == WXor(x1, Shr(x1, 17))
      x == WXor(x2, Shr(x2, 5))
  IN [c |-> High(t, 4), g |-> g, x |-> x, q |-> IF Len(a.q) < keep THEN Append(a.q, w) ELSE a.q,
      ok |-> a.ok /\ (v = <<>> \/ v = Add(Add(w, g), x)), i |-> a.i + 1]
SkStart == [c |-> W4(362436), g |-> W4(1236789), x |-> W4(521288629), q |-> <<>>, ok |-> TRUE, i |-> 0]
(* vs: outputs; the words of the second round are kept for as many as it has *)
SuperKissIs(K, vs) ==
  LET n2 == IF Len(vs) > SkQ THEN Len(vs) - SkQ ELSE 0
      m == IF Len(vs) > SkQ THEN SkQ ELSE Len(vs)
      a == FoldLeft(LAMBDA s, q : TLCEval(SkStep(s, q, vs[s.i + 1], n2)), SkStart, SubSeq(K, 1, m))
      b == FoldLeft(LAMBDA s, q : TLCEval(SkStep(s, q, vs[s.i + 1], 0)), [a EXCEPT !.q = <<>>], a.q)
  IN Len(K) = SkQ /\ Len(a.q) = n2 /\ a.ok /\ b.ok

(* -- AES-128 in output feedback mode ---------------------------------------- *)
XTime(x) == IF x < 128 THEN 2 * x ELSE ((2 * x) % 256) ^^ 27
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
RECURSIVE GPow(_, _)
GPow(a, e) == IF e = 0 THEN 1 ELSE LET h == GPow(a, e \div 2) IN LET q == GMul(h, h) IN IF e % 2 = 1 THEN GMul(q, a) ELSE q
X4(a, b, d, e) == ((a ^^ b) ^^ d) ^^ e
RotByte(x, i) == ((x * 2 ^ i) % 256) + (x \div 2 ^ (8 - i))
SBoxOf(x) == LET v == GPow(x, 254) IN X4(v, RotByte(v, 1), RotByte(v, 2), X4(RotByte(v, 3), RotByte(v, 4), 99, 0))
SBox == TLCEval([x \in 0..255 |-> SBoxOf(x)])
RCon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
RECURSIVE Expand(_)                       \* the key schedule: 44 columns of four bytes
Expand(w) == IF Len(w) = 44 THEN w ELSE
  LET i == Len(w)
      p == w[i]
      t == IF i % 4 # 0 THEN p ELSE <<SBox[p[2]] ^^ RCon[i \div 4], SBox[p[3]], SBox[p[4]], SBox[p[1]]>>
  IN Expand(Append(w, WXor(w[i - 3], t)))
RoundKey(w, r) == [i \in 1..16 |-> w[4 * r + ((i - 1) \div 4) + 1][((i - 1) % 4) + 1]]
(* byte i of the state: column (i-1) \div 4, row (i-1) % 4 *)
ShiftRows(b) == [i \in 1..16 |-> LET row == (i - 1) % 4  col == (i - 1) \div 4 IN b[4 * ((col + row) % 4) + row + 1]]
MixColumns(b) == [i \in 1..16 |-> LET row == (i - 1) % 4  o == 4 * ((i - 1) \div 4) IN
  X4(GMul(b[o + row + 1], 2), GMul(b[o + ((row + 1) % 4) + 1], 3), b[o + ((row + 2) % 4) + 1], b[o + ((row + 3) % 4) + 1])]
SubBytes(b) == [i \in 1..16 |-> SBox[b[i]]]
RECURSIVE AesRounds(_, _, _)
AesRounds(b, w, r) ==
  IF r = 10 THEN WXor(ShiftRows(SubBytes(b)), RoundKey(w, 10))
  ELSE AesRounds(TLCEval(WXor(MixColumns(TLCEval(ShiftRows(SubBytes(b)))), RoundKey(w, r))), w, r + 1)
Aes(b, w) == AesRounds(TLCEval(WXor(b, RoundKey(w, 0))), w, 1)
AesKey(s) == [i \in 1..16 |-> (112 + i - 1 + Shr(s, (5 * (i - 1)) % 26)[1]) % 256]
RECURSIVE Feedback(_, _, _, _)
(* n bytes of block, E(block), E(E(block)), ... *)
Feedback(E(_), b, n, acc) == IF Len(acc) >= n THEN acc ELSE Feedback(E, TLCEval(E(b)), n, acc \o b)
WordsOf(bytes, n) == [i \in 1..n |-> SubSeq(bytes, 4 * i - 3, 4 * i)]
AesOfb(s, n) ==
  LET w == TLCEval(Expand([c \in 1..4 |-> SubSeq(AesKey(s), 4 * c - 3, 4 * c)]))
      E(b) == Aes(b, w)
  IN WordsOf(Feedback(E, E(Zero(16)), 4 * n, <<>>), n)

(* -- Threefish-512 ----------------------------------------------------------- *)
TfRot == << <<38, 30, 50, 53>>, <<48, 20, 43, 31>>, <<34, 14, 15, 27>>, <<26, 12, 58, 7>>,
            <<33, 49, 8, 42>>, <<39, 27, 41, 14>>, <<29, 26, 11, 9>>, <<33, 51, 39, 35>> >>
TfPerm == <<2, 1, 4, 7, 6, 5, 0, 3>>
TfKey == [i \in 1..8 |-> [j \in 1..8 |-> 64 + 8 * (i - 1) + j - 1]]
TfParity == [j \in 1..8 |-> 85]
TfKeys == TLCEval(Append(TfKey, FoldLeft(WXor, TfParity, TfKey)))
TfTweak(t0) == LET t1 == [j \in 1..8 |-> 120 + j - 1] IN <<t0, t1, WXor(t0, t1)>>
W8(x) == Low(W4(x), 8)
SubKey(T, d, i) ==                        \* i in 0..7
  LET q == TfKeys[((d + i) % 9) + 1] IN
  CASE i = 5 -> Add(q, T[(d % 3) + 1]) [] i = 6 -> Add(q, T[((d + 1) % 3) + 1]) [] i = 7 -> Add(q, W8(d)) [] OTHER -> q
Inject(v, T, d) == [i \in 1..8 |-> Add(v[i], SubKey(T, d, i - 1))]
(* one round: four mixes, then the permutation of the eight words *)
TfRound(v, r) ==
  LET m == [i \in 1..8 |-> LET j == (i - 1) \div 2  a == v[2 * j + 1]  b == v[2 * j + 2]  t == Add(a, b) IN
             IF i % 2 = 1 THEN t ELSE WXor(Rotl(b, TfRot[(r % 8) + 1][j + 1]), t)]
  IN [i \in 1..8 |-> m[TfPerm[i] + 1]]
RECURSIVE TfRounds(_, _, _)
TfRounds(v, T, r) == IF r = 72 THEN Inject(v, T, 18)
  ELSE TfRounds(TLCEval(TfRound(IF r % 4 = 0 THEN TLCEval(Inject(v, T, r \div 4)) ELSE v, r)), T, r + 1)
TfBlock(b, T) == LET o == TLCEval(TfRounds([i \in 1..8 |-> SubSeq(b, 8 * i - 7, 8 * i)], T, 0)) IN
  [i \in 1..64 |-> o[((i - 1) \div 8) + 1][((i - 1) % 8) + 1]]
(* the seed is encrypted under the full tweak, the later blocks under one with 112 as its first word *)
TfOfb(s, n) ==
  LET E(b) == TfBlock(b, TfTweak(W8(112)))
      first == TfBlock([i \in 1..64 |-> IF i <= 4 THEN s[i] ELSE 0], TfTweak([j \in 1..8 |-> 112 + j - 1]))
  IN WordsOf(Feedback(E, TLCEval(first), 4 * n, <<>>), n)

(* -- R's generators ----------------------------------------------------------- *)
Lcg(x) == Add(Mul(<<205, 13, 1, 0>>, x, 4), One(4))
RECURSIVE LcgN(_, _)
LcgN(x, n) == IF n = 0 THEN x ELSE LcgN(TLCEval(Lcg(x)), n - 1)
LcgOut(x) == LET y == Lcg(x) IN <<y, y>>
RSeeds(s, n) == Walk(LcgOut, TLCEval(LcgN(s, 50)), n)
NonZero(x) == IF x = Zero(4) THEN One(4) ELSE x
MarsStart(s) == LET q == RSeeds(s, 2) IN <<NonZero(q[1]), NonZero(q[2])>>
Mwc16(m, x) == Add(Mul(W4(m), Low(SubSeq(x, 1, 2), 4), 4), Low(SubSeq(x, 3, 4), 4))
MarsNext(t) == LET a == Mwc16(36969, t[1])  b == Mwc16(18000, t[2]) IN
  << <<b[1], b[2], a[1], a[2]>>, <<a, b>> >>
Mars(s, n) == Walk(MarsNext, MarsStart(s), n)
DuperStart(s) == LET q == RSeeds(s, 2) IN <<NonZero(q[1]), IF q[2][1] % 2 = 0 THEN [q[2] EXCEPT ![1] = @ + 1] ELSE q[2]>>
DuperNext(t) ==
  LET a1 == WXor(t[1], WAnd(Shr(t[1], 15), W4(131071)))
      a == WXor(a1, Shl(a1, 17))
      b == Mul(<<205, 13, 1, 0>>, t[2], 4)
  IN <<WXor(a, b), <<a, b>> >>
Duper(s, n) == Walk(DuperNext, DuperStart(s), n)
WH1 == 30269
WH2 == 30307
WH3 == 30323
Or1(x) == IF x = 0 THEN 1 ELSE x
WHStart(s) == LET q == RSeeds(s, 3) IN <<Or1(ModSmall(q[1], WH1)), Or1(ModSmall(q[2], WH2)), Or1(ModSmall(q[3], WH3))>>
WHNext(t) == LET u == <<(t[1] * 171) % WH1, (t[2] * 172) % WH2, (t[3] * 170) % WH3>> IN <<u, u>>
WH(s, n) == Walk(WHNext, WHStart(s), n)
(* v is the integer part of (2^32-1) times the fractional part of u1/m1 + u2/m2 + u3/m3, up to one:
   v*M <= F*(2^32-1) + M and F*(2^32-1) <= (v+2)*M, F the numerator over M = m1*m2*m3 *)
N12(x) == Low(x, 12)
P3(a, b, d) == Mul(Mul(W4(a), W4(b), 8), W4(d), 12)
WHM == TLCEval(P3(WH1, WH2, WH3))
RECURSIVE Reduce(_, _)
Neg(a) == Add(WNot(a), One(Len(a)))
Reduce(x, m) == IF Leq(m, x) THEN Reduce(TLCEval(Add(x, Neg(m))), m) ELSE x
WHOk(u, v) ==
  LET f == TLCEval(Reduce(Add(Add(P3(u[1], WH2, WH3), P3(u[2], WH1, WH3)), P3(u[3], WH1, WH2)), WHM))
      F == TLCEval(Mul(f, <<255, 255, 255, 255>>, 12))
      vM == TLCEval(Mul(v, WHM, 12))
  IN Leq(vM, Add(F, WHM)) /\ Leq(F, Add(vM, Add(WHM, WHM)))
(* Mersenne Twister on the seeds of R *)
MtUp == <<0, 0, 0, 128>>
MtLo == <<255, 255, 255, 127>>
MtA == <<223, 176, 8, 153>>
MtTwist(x, y, z) ==                       \* x_k, x_{k+1}, x_{k+397}
  LET t == [i \in 1..4 |-> IF i = 4 THEN (x[4] & 128) + (y[4] & 127) ELSE y[i]]
      h == WXor(z, Shr(t, 1)) IN IF t[1] % 2 = 1 THEN WXor(h, MtA) ELSE h
MtExtend(x, n) ==
  FoldLeft(LAMBDA y, i : TLCEval(Append(y, MtTwist(y[i], y[i + 1], y[i + 397]))), x, [i \in 1..n |-> i])
MtTemper(y) ==
  LET a == WXor(y, Shr(y, 11))
      b == WXor(a, WAnd(Shl(a, 7), <<128, 86, 44, 157>>))
      d == WXor(b, WAnd(Shl(b, 15), <<0, 0, 198, 239>>))
  IN WXor(d, Shr(d, 18))
RMt(s, n) == LET x == MtExtend(SubSeq(RSeeds(s, 625), 2, 625), n) IN [i \in 1..n |-> MtTemper(x[624 + i])]
(* Knuth's lagged subtraction x_n = x_{n-100} - x_{n-37} mod 2^30, of every 1009 values the first 100 *)
MM == 1073741824
Diff(x, y) == (x - y) % MM
RECURSIVE KtBoot(_, _)
KtBoot(ss, acc) == IF Len(acc) = 100 THEN acc ELSE
  KtBoot(IF 2 * (ss - MM \div 2) >= 0 THEN 2 * (ss - MM \div 2) + 2 ELSE 2 * ss, Append(acc, ss))
KtSquare(x) ==                            \* x: 1..199, x[i+1] the coefficient of z^i
  LET y == [i \in 1..199 |-> IF i % 2 = 1 THEN x[((i - 1) \div 2) + 1] ELSE 0]
      Step(a, d) == LET j == 199 - d IN    \* d = 1..99: coefficients 198 down to 100
        TLCEval([a EXCEPT ![j - 63 + 1] = Diff(@, a[j + 1]), ![j - 100 + 1] = Diff(@, a[j + 1])])
  IN FoldLeft(Step, y, [d \in 1..99 |-> d])
KtTimesZ(x) == [i \in 1..199 |-> IF i = 1 \/ i = 101 THEN x[100]
                ELSE IF i = 38 THEN Diff(x[37], x[100]) ELSE IF i <= 100 THEN x[i - 1] ELSE x[i]]
RECURSIVE KtPower(_, _, _)
KtPower(x, ss, t) == IF t = 0 THEN x ELSE
  LET y == TLCEval(KtSquare(x))
      z == TLCEval(IF ss % 2 = 1 THEN KtTimesZ(y) ELSE y)
  IN IF ss # 0 THEN KtPower(z, ss \div 2, t) ELSE KtPower(z, 0, t - 1)
KtExtend(x, n) == FoldLeft(LAMBDA y, i : TLCEval(Append(y, Diff(y[i], y[i + 63]))), x, [i \in 1..n |-> i])
KtAdvance(x, n) == LET y == KtExtend(x, n) IN TLCEval(SubSeq(y, n + 1, n + 100))
RECURSIVE KtAdvances(_, _, _)
KtAdvances(x, n, m) == IF m = 0 THEN x ELSE KtAdvances(KtAdvance(x, n), n, m - 1)
KtStart(seed) ==
  LET b == KtBoot((seed + 2) - ((seed + 2) % 2) , <<>>)
      x == [i \in 1..199 |-> IF i = 2 THEN b[2] + 1 ELSE IF i <= 100 THEN b[i] ELSE 0]
      p == KtPower(TLCEval(x), seed, 69)
      r == [i \in 1..100 |-> IF i <= 63 THEN p[i + 37] ELSE p[i - 63]]
  IN KtAdvances(TLCEval(r), 199, 10)
RECURSIVE KtOut(_, _, _)
KtOut(x, n, acc) == IF Len(acc) >= n THEN SubSeq(acc, 1, n) ELSE LET y == KtAdvance(x, 1009) IN KtOut(y, n, acc \o y)
Taocp(s, n) == KtOut(KtStart(Mod(LcgN(s, 50), 1073741821)), n, <<>>)

(* -- the cellular automaton: generations of 2056 cells ------------------------- *)
CaRule == <<
   100,75,16,3,229,51,197,118,24,62,198,11,141,152,241,188,2,17,71,47,179,177,126,231,202,243,59,25,77,196,30,134,
   199,163,34,216,21,84,37,182,224,186,64,79,225,45,143,20,48,147,209,221,125,29,99,12,46,190,102,220,80,215,242,
   105,15,53,0,67,68,69,70,89,109,195,170,78,210,131,42,110,181,145,40,114,254,85,107,87,72,192,90,201,162,122,86,
   252,94,129,98,132,193,249,156,172,219,230,153,54,180,151,83,214,123,88,164,167,116,117,7,27,23,213,235,5,65,124,
   60,127,236,149,44,28,58,121,191,13,250,10,232,112,101,217,183,239,8,32,228,174,49,113,247,158,106,218,154,66,
   226,157,50,26,253,93,205,41,133,165,61,161,187,169,6,171,81,248,56,175,246,36,178,52,57,212,39,176,184,185,245,
   63,35,189,206,76,104,233,194,19,43,159,108,55,200,155,14,74,244,255,222,207,208,137,128,135,96,144,18,95,234,
   139,173,92,1,203,115,223,130,97,91,227,146,4,31,120,211,38,22,138,140,237,238,251,240,160,142,119,73,103,166,33,
   148,9,111,136,168,150,82,204>>
CaW == 2056
(* the cell's left neighbour and itself; the first cell has none *)
CaGen(x) == TLCEval([i \in 1..CaW |-> CaRule[((IF i = 1 THEN x[1] ELSE x[i - 1] + x[i]) % 256) + 1]])
CaGens(x, g) == FoldLeft(LAMBDA y, i : CaGen(y), x, [i \in 1..g |-> i])
CaStart(s) ==
  LET t == IF s = <<255, 255, 255, 255>> THEN s ELSE Add(s, One(4)) IN
  TLCEval([i \in 1..CaW |-> IF i = CaW THEN s[1] ELSE IF i > CaW - 4 THEN 0 ELSE Shr(t, (i - 1) % 32)[1]])
(* a generation delivers its cells as 514 words, the last cells first *)
CaWords(x) == [j \in 1..CaW \div 4 |-> SubSeq(x, CaW - 4 * j + 1, CaW - 4 * j + 4)]
RECURSIVE CaOut(_, _, _)
CaOut(x, n, acc) == IF Len(acc) >= n THEN SubSeq(acc, 1, n) ELSE LET y == CaGen(x) IN CaOut(y, n, acc \o CaWords(y))
Ca(s, n) == CaOut(CaGens(CaStart(s), CaW), n, <<>>)

(* -- UVAG: 256 overlapping words in 259 bytes ---------------------------------- *)
UvKey(K) == [i \in 1..256 |-> IF i = 256 THEN 0 ELSE K[((i - 1) \div 4) + 1][((i - 1) % 4) + 1]]
UvStart(K) ==
  LET key == TLCEval(UvKey(K))
      Step(a, i) ==                        \* a: [v, p (next key byte), t]
        LET t == (a.t + key[a.p]) % 259
            nx == IF key[a.p + 1] = 0 THEN 1 ELSE a.p + 1 IN
        TLCEval([v |-> [a.v EXCEPT ![t + 1] = a.v[i], ![i] = a.v[t + 1]], p |-> nx, t |-> t])
  IN [v |-> FoldLeft(Step, [v |-> [i \in 1..259 |-> (i - 1) % 256], p |-> 1, t |-> 0], [i \in 1..259 |-> i]).v,
      i |-> 0, r |-> Zero(4)]
UvNext(s) ==
  LET i == (s.i + 1) % 256
      o == s.v[i + 1]
      w == Add(SubSeq(s.v, o + 1, o + 4), s.r)
      r == Add(s.r, w)
  IN <<r, [v |-> [s.v EXCEPT ![o + 1] = w[1], ![o + 2] = w[2], ![o + 3] = w[3], ![o + 4] = w[4]], i |-> i, r |-> r]>>
Uvag(K, n) == Walk(UvNext, UvStart(K), n)
=============================================================================
