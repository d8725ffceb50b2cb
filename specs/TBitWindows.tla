----------------------------- MODULE TBitWindows -----------------------------
EXTENDS BitWindows, Cases
Ok(c) ==
  CASE c.f = "umask"  -> c.r = Umask(c.a, c.b)
    [] c.f = "win"    -> c.r = Window(c.x, c.a, c.b, c.o)
    [] c.f = "rotr"   -> c.r = RotR(c.x, c.s)
    [] c.f = "rotl"   -> c.r = RotL(c.x, c.s)
    [] c.f = "cycle"  -> c.r = Cycle1(c.x, c.n)
    [] c.f = "cyc"    -> CycOk(c.in, c.n, c.o, c.r) /\ c.after = c.in
    [] c.f = "ntup"   -> c.r = NTuple(c.in, c.w, c.n, c.o) /\ c.after = c.in
    [] c.f = "getbit" -> c.r = GetBit(c.in, c.w, c.n) /\ c.after = c.in
    [] c.f = "bit2uint" -> c.r = BitString(c.s)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
