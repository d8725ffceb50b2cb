----------------------------- MODULE BitStream -----------------------------
(***************************************************************************)
(* The one true bit stream (C01).  A generator of output width W delivers   *)
(* numbers; their bits, least significant first, concatenated, are THE      *)
(* stream.  Three interfaces take bits from it:                             *)
(*   Word   – the next U-bit word of the stream,                            *)
(*   Bits   – the next n bits; this interface may fetch whole words ahead,  *)
(*            but delivers them in order and delivers all of them,          *)
(*   LBits  – the next n bits counted from the most significant bit of each *)
(*            output ("left to right"); it draws its own outputs.           *)
(* Reset discards what was fetched and not yet delivered.                   *)
(* Words and bit strings are sequences, LSB first (LBits: MSB first).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT U
VARIABLES pool,   \* bits drawn for the word layer and not yet taken
          fifo,   \* bits fetched by the Bits interface, not yet delivered
          lpool   \* bits drawn by the LBits interface, not yet delivered
bvars == <<pool, fifo, lpool>>

First(s, n) == SubSeq(s, 1, n)
Rest(s, n)  == SubSeq(s, n + 1, Len(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

BInit == pool = <<>> /\ fifo = <<>> /\ lpool = <<>>

(* d: the outputs drawn during the call, each a bit sequence LSB first *)
Word(d, r) ==
  LET p == pool \o Flat(d) IN
  /\ Len(p) >= U
  /\ r = First(p, U)
  /\ pool' = Rest(p, U)
  /\ UNCHANGED <<fifo, lpool>>

Bits(n, d, r) ==
  LET p == pool \o Flat(d) IN
  \E t \in 0..(Len(p) \div U) :
    LET q == fifo \o First(p, t * U) IN
    /\ Len(q) >= n
    /\ r = First(q, n)
    /\ fifo' = Rest(q, n)
    /\ pool' = Rest(p, t * U)
    /\ UNCHANGED lpool

LBits(n, d, r) ==
  LET p == lpool \o Flat([i \in 1..Len(d) |-> Rev(d[i])]) IN
  /\ Len(p) >= n
  /\ r = First(p, n)
  /\ lpool' = Rest(p, n)
  /\ UNCHANGED <<pool, fifo>>

Reset == pool' = <<>> /\ fifo' = <<>> /\ lpool' = <<>>
=============================================================================
