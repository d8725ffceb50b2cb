------------------------------ MODULE TOwnGens ------------------------------
(* Outputs of the real generators against their recurrences (C25).  A record:   *)
(* f generator, s seed, K outputs of the seeding generator, v outputs, u[i] = 1   *)
(* where output i was drawn as a floating-point number (scaled back to an          *)
(* integer by the recorder).                                                       *)
EXTENDS OwnGens, Cases
Same(c, r) == \A i \in 1..Len(c.v) : c.v[i] = r[i]
Pred(x) == IF x = Zero(4) THEN x ELSE Add(x, <<255, 255, 255, 255>>)
(* R: integers are the product of the uniform number with the largest output, cut off *)
Exact(c, r) == \A i \in 1..Len(c.v) : c.v[i] = IF c.u[i] = 1 THEN r[i] ELSE Pred(r[i])
Near(c, r) == \A i \in 1..Len(c.v) : c.v[i] = r[i] \/ (c.u[i] = 0 /\ c.v[i] = Pred(r[i]))
Small(c, r) == \A i \in 1..Len(c.v) : IntOf(c.v[i]) = IF c.u[i] = 1 \/ r[i] = 0 THEN r[i] ELSE r[i] - 1
Ok(c) == LET n == Len(c.v) IN
  CASE c.f = "kiss" -> Same(c, Kiss(c.K, n))
    [] c.f = "superkiss" -> SuperKissIs(c.K, c.v)
    [] c.f = "AES_OFB" -> Same(c, AesOfb(c.s, n))
    [] c.f = "Threefish_OFB" -> Same(c, TfOfb(c.s, n))
    [] c.f = "R_wichmann_hill" -> LET r == WH(c.s, n) IN \A i \in 1..n : WHOk(r[i], c.v[i])
    [] c.f = "R_marsaglia_multic." -> Near(c, Mars(c.s, n))
    [] c.f = "R_super_duper" -> Near(c, Duper(c.s, n))
    [] c.f = "R_mersenne_twister" -> Exact(c, RMt(c.s, n))
    [] c.f \in {"R_knuth_taocp", "R_knuth_taocp2"} -> Small(c, Taocp(c.s, n))
    [] c.f = "ca" -> Same(c, Ca(c.s, n))
    [] c.f = "uvag" -> Same(c, Uvag(c.K, n))
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
