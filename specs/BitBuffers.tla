----------------------------- MODULE BitBuffers -----------------------------
(***************************************************************************)
(* The buffering algorithm of the delivery functions, as implemented, with  *)
(* word size U, generator width W and ring size B small.  A "bit" is the     *)
(* number of its position in the stream (from 1), so delivering the stream   *)
(* means delivering consecutive numbers; 0 is an empty position and Bad a    *)
(* position into which two bits were added (carry corruption).               *)
(* The algorithm is data independent, so this covers all generator outputs.  *)
(* VIEW removes the absolute position: the state space is finite.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS U, W, B, ClearWhenExact, KeepLeftover
VARIABLES pos,     \* bits drawn so far for the word/bits layer
          bleft,   \* bits still needed in cur; -1 before the first call
          cur,     \* bits_rand[1]: position (0 = least significant) -> bit
          ring,    \* 0..B*U-1, left to right
          br, ic, bi,
          lleft, lbuf, lpos,  \* left-to-right interface
          wnext, bq, lnext,   \* expected: next word position, fetched words, next left-to-right bit
          ok
vars == <<pos, bleft, cur, ring, br, ic, bi, lleft, lbuf, lpos, wnext, bq, lnext, ok>>
Bad == -1
Empty == [i \in 0..U-1 |-> 0]
Put(c, i, b) == [c EXCEPT ![i] = IF @ = 0 THEN b ELSE Bad]
RECURSIVE PutAll(_, _, _, _)
PutAll(c, at, b, n) == IF n = 0 THEN c ELSE PutAll(Put(c, at, b), at + 1, b + 1, n - 1)

(* one get_uint_rand call: <<word, pos, bleft, cur>> *)
RECURSIVE Fill(_, _, _)
Fill(p, bl, c) == IF bl > W THEN Fill(p + W, bl - W, PutAll(c, U - bl, p + 1, W)) ELSE <<p, bl, c>>
Uint(p0, bl0, c0) ==
  LET i1 == IF bl0 = -1 THEN <<p0 + W, U - W, PutAll(Empty, 0, p0 + 1, W)>> ELSE <<p0, bl0, c0>>
      f == Fill(i1[1], i1[2], i1[3])
      p == f[1]  bl == f[2]
      word == PutAll(f[3], U - bl, p + 1, bl)      \* the first bl bits of the new output
  IN IF bl = W
     THEN <<word, p + W, U, IF ClearWhenExact THEN Empty ELSE word>>
     ELSE <<word, p + W, U - W + bl, PutAll(Empty, 0, p + bl + 1, W - bl)>>

RECURSIVE Uints(_, _, _, _)   \* k words: <<seq of words, pos, bleft, cur>>
Uints(k, p, bl, c) ==
  IF k = 0 THEN <<<<>>, p, bl, c>>
  ELSE LET u == Uint(p, bl, c)
           r == Uints(k - 1, u[2], u[3], u[4])
       IN <<<<u[1]>> \o r[1], r[2], r[3], r[4]>>

Init == /\ pos = 0 /\ bleft = -1 /\ cur = Empty
        /\ ring = [i \in 0..B*U-1 |-> 0] /\ br = -1 /\ ic = -1 /\ bi = -1
        /\ lleft = 0 /\ lbuf = <<>> /\ lpos = 0
        /\ wnext = 1 /\ bq = <<>> /\ lnext = 1 /\ ok = TRUE

WordBits(w) == [i \in 1..U |-> w[i-1]]
Expect(a) == [i \in 1..U |-> a + i - 1]

GetWord ==
  LET u == Uint(pos, bleft, cur) IN
  /\ pos' = u[2] /\ bleft' = u[3] /\ cur' = u[4]
  /\ ok' = (WordBits(u[1]) = Expect(wnext))
  /\ wnext' = wnext + U
  /\ UNCHANGED <<ring, br, ic, bi, lleft, lbuf, lpos, bq, lnext>>

RECURSIVE Store(_, _, _)       \* write words into the ring backwards from word index i
Store(rg, i, ws) == IF ws = <<>> THEN rg
  ELSE Store([x \in DOMAIN rg |-> IF x \div U = i THEN Head(ws)[U - 1 - (x % U)] ELSE rg[x]],
             IF i = 0 THEN B - 1 ELSE i - 1, Tail(ws))

GetBits(n) ==
  LET first == br = -1
      u0 == IF first THEN Uints(B, pos, bleft, cur) ELSE <<<<>>, pos, bleft, cur>>
      rg0 == IF first THEN Store(ring, B - 1, u0[1]) ELSE ring
      br0 == IF first THEN B ELSE br
      ic0 == IF first THEN B - 1 ELSE ic
      bi0 == IF first THEN 0 ELSE bi
      b1 == bi0 - (n % U)
      bi1 == IF b1 < 0 THEN b1 + U ELSE b1
      r1 == br0 - (n \div U) - (IF b1 < 0 THEN 1 ELSE 0)
      br1 == IF r1 < 0 THEN r1 + B ELSE r1
      off == br1 * U + bi1
      res == [i \in 1..n |-> rg0[(off + n - i) % (B * U)]]      \* least significant first
      k == (ic0 - br1 + B) % B
      u1 == Uints(k, u0[2], u0[3], u0[4])
      taken == (IF first THEN B ELSE 0) + k
      q == bq \o [i \in 1..taken * U |-> wnext + i - 1]
  IN /\ n > 0
     /\ pos' = u1[2] /\ bleft' = u1[3] /\ cur' = u1[4]
     /\ ring' = Store(rg0, ic0, u1[1])
     /\ br' = br1 /\ bi' = bi1 /\ ic' = br1
     /\ ok' = (Len(q) >= n /\ res = SubSeq(q, 1, n))
     /\ bq' = SubSeq(q, n + 1, Len(q))
     /\ wnext' = wnext + taken * U
     /\ UNCHANGED <<lleft, lbuf, lpos, lnext>>

(* left-to-right interface; lbuf: the last output, most significant bit first *)
RECURSIVE LMore(_, _, _, _)
LMore(need, p, left, acc) ==   \* need more bits than are left; draw
  LET out == [i \in 1..W |-> p + i] IN
  IF W >= need THEN <<acc \o SubSeq(out, 1, need), p + W, W - need, out>>
  ELSE LMore(need - W, p + W, 0, acc \o out)
GetL(n) ==
  LET have == SubSeq(lbuf, W - lleft + 1, W)
      s == IF n = W /\ (~KeepLeftover \/ lleft = 0)
           THEN <<[i \in 1..W |-> lpos + i], lpos + W, lleft, lbuf>>
           ELSE IF lleft >= n THEN <<SubSeq(have, 1, n), lpos, lleft - n, lbuf>>
           ELSE LMore(n - lleft, lpos, 0, have)
  IN /\ lpos' = s[2] /\ lleft' = s[3] /\ lbuf' = s[4]
     /\ ok' = (s[1] = [i \in 1..n |-> lnext + i - 1])
     /\ lnext' = lnext + n
     /\ UNCHANGED <<pos, bleft, cur, ring, br, ic, bi, wnext, bq>>

ResetBuffers ==
  /\ bleft' = -1 /\ cur' = Empty /\ ring' = [i \in 0..B*U-1 |-> 0]
  /\ br' = -1 /\ ic' = -1 /\ bi' = -1 /\ lleft' = 0
  /\ wnext' = pos + 1 /\ bq' = <<>> /\ lnext' = lpos + 1
  /\ UNCHANGED <<pos, lbuf, lpos>> /\ ok' = TRUE

Next == GetWord \/ (\E n \in 1..(B-2)*U : GetBits(n)) \/ (\E n \in 1..U : GetL(n)) \/ ResetBuffers
Spec == Init /\ [][Next]_vars
StreamIntact == ok

(* a bit that was delivered is dead: its number no longer matters *)
Rank(b) == IF \E i \in DOMAIN bq : bq[i] = b THEN CHOOSE i \in DOMAIN bq : bq[i] = b ELSE IF b = Bad THEN Bad ELSE 0
Age(b) == IF b <= 0 THEN b ELSE pos - b + 1
View == <<bleft, [i \in DOMAIN cur |-> Age(cur[i])], [i \in DOMAIN ring |-> Rank(ring[i])], br, ic, bi,
          lleft, lpos - lnext, pos - wnext, Len(bq), ok>>
=============================================================================
