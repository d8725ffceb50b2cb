------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The report (C12): what is printed is a function of the selected flags, the    *)
(* configuration and the results.  A line is [t |-> type, f |-> fields]; fields   *)
(* are strings without the padding.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
FlagNames == <<"header", "show_rng", "line_header", "test_name", "ntuple", "tsamples", "psamples", "pvalues", "assessment",
               "prefix", "description", "histogram", "seed", "rate", "show_num", "no_whitespace", "psample_values", "file_rng_stat">>
Weight(n) == 2 ^ ((CHOOSE i \in 1..Len(FlagNames) : FlagNames[i] = n) - 1)
Default == 1 + 2 + 4 + 8 + 16 + 32 + 64 + 128 + 256 + 4096 + 8192
(* -D arguments, in order: [n |-> number, s |-> ""] or [n |-> 0, s |-> name]    *)
Amount(a) == IF a.s = "" THEN a.n ELSE IF a.s = "default" THEN 0 ELSE Weight(a.s)
RECURSIVE Sum(_, _, _)
Sum(as, i, acc) == IF i > Len(as) THEN acc
                   ELSE Sum(as, i + 1, IF Amount(as[i]) = 0 THEN Default ELSE acc + Amount(as[i]))
FlagSum(as) == IF as = <<>> THEN Default ELSE Sum(as, 1, 0)
Flags(as) == {FlagNames[i] : i \in {j \in 1..Len(FlagNames) : (FlagSum(as) \div 2 ^ (j - 1)) % 2 = 1}}

Opt(b, x) == IF b THEN <<x>> ELSE <<>>
Tok(f) == [t |-> "tok", f |-> IF f = <<>> THEN <<"">> ELSE f]
Line(t) == [t |-> t, f |-> <<"">>]
Measured == "<any>"                        \* a measured value (generator speed)

(* fixed-point numbers of 8 decimals *)
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
P8(x) == IF x >= 100000000 THEN "1.00000000" ELSE "0." \o Pad(ToString(x), 8)

(* c: the configuration [F flags, strat, file (name or ""), gname, gnum]        *)
SeedInRng(c) == "seed" \in c.F /\ c.strat = 0 /\ c.file = ""
SeedInRow(c) == "seed" \in c.F /\ c.strat # 0
RngTitle(c) == Tok(Opt("prefix" \in c.F, "0") \o <<"rng_name">> \o Opt("show_num" \in c.F, "num") \o Opt(c.file # "", "filename")
                   \o Opt("rate" \in c.F, "rands/second") \o Opt(SeedInRng(c), "Seed") \o <<"">>)
RngLine(c, seed) == Tok(Opt("prefix" \in c.F, "1") \o <<c.gname>> \o Opt("show_num" \in c.F, ToString(c.gnum)) \o Opt(c.file # "", c.file)
                        \o Opt("rate" \in c.F, Measured) \o Opt(SeedInRng(c), seed) \o <<"">>)
Titles(c) == LET b == Opt("header" \in c.F, Line("bar")) IN
  b \o <<Tok(Opt("prefix" \in c.F, "0") \o Opt("test_name" \in c.F, "test_name") \o Opt("show_num" \in c.F, "num")
             \o Opt("ntuple" \in c.F, "ntup") \o Opt("tsamples" \in c.F, "tsamples") \o Opt("psamples" \in c.F, "psamples")
             \o Opt("pvalues" \in c.F, "p-value") \o Opt("assessment" \in c.F, "Assessment") \o Opt(SeedInRow(c), "Seed"))>> \o b
First(c, seed) ==
  (IF "header" \in c.F THEN <<Line("bar"), Line("version"), Line("bar")>> ELSE <<>>)
  \o (IF "show_rng" \in c.F THEN Opt("line_header" \in c.F, RngTitle(c)) \o <<RngLine(c, seed)>> ELSE <<>>)
  \o (IF "line_header" \in c.F /\ "histogram" \notin c.F THEN Titles(c) ELSE <<>>)

(* r: a result [name, num, nt, ts, kp (final p-values), ps (p-values of every statistic)]; p-values in 1e-8 *)
Assess(p, c) == IF p < c.fail \/ p > 100000000 - c.fail THEN "FAILED"
                ELSE IF p < c.weak \/ p > 100000000 - c.weak THEN "WEAK" ELSE "PASSED"
Name(n, c) == IF "no_whitespace" \in c.F \/ Len(n) <= 20 THEN n ELSE SubSeq(n, 1, 20)
Row(c, seed, r, i) ==
  Tok(Opt("prefix" \in c.F, "2") \o Opt("test_name" \in c.F, Name(r.name, c)) \o Opt("show_num" \in c.F, ToString(r.num))
      \o Opt("ntuple" \in c.F, ToString(r.nt)) \o Opt("tsamples" \in c.F, ToString(r.ts)) \o Opt("psamples" \in c.F, ToString(Len(r.ps[i])))
      \o Opt("pvalues" \in c.F, P8(r.kp[i])) \o Opt("assessment" \in c.F, Assess(r.kp[i], c)) \o Opt(SeedInRow(c), seed))
Values(c, v) == LET s == SortSeq(v, <) IN IF "psample_values" \notin c.F THEN <<>>
  ELSE <<Line("bar"), Line("vtitle"), Line("bar")>> \o [k \in 1..Len(v) |-> Tok(<<"", P8(s[k]), "">>)] \o <<Line("bar"), Tok(<<>>)>>

(* the values of a statistic may come in any order: the recorder sorts them *)
(* ten bins of width 1/10; 20 rows, row i has a mark where the bin holds at least i*vs values *)
BinOf(p) == IF p >= 100000000 THEN 9 ELSE p \div 10000000
Bins(v) == [b \in 0..9 |-> Cardinality({k \in 1..Len(v) : BinOf(v[k]) = b})]
HRow(bins, i, vs) == [t |-> "hrow", f |-> <<IF i % 2 = 0 THEN ToString(i * vs) ELSE "">> \o [b \in 1..10 |-> IF bins[b - 1] >= i * vs THEN "****" ELSE ""]]
Histogram(c, v, vs) == IF "histogram" \notin c.F THEN <<>>
  ELSE <<Line("bar"), Line("htitle"), Line("bar"), [t |-> "hscale", f |-> <<"0.100000">>]>>
       \o LET bs == Bins(v) IN [i \in 1..20 |-> HRow(bs, 21 - i, vs)]
       \o <<Line("hbase"), [t |-> "haxis", f |-> <<"0.1", "0.2", "0.3", "0.4", "0.5", "0.6", "0.7", "0.8", "0.9", "1.0">>], Line("bar")>>
       \o (IF "line_header" \in c.F THEN Titles(c) ELSE <<>>)
BinMax(v) == LET bs == Bins(v) IN CHOOSE m \in 0..Len(v) : (\E b \in 0..9 : bs[b] = m) /\ \A b \in 0..9 : bs[b] <= m
FileStat(c) == IF "file_rng_stat" \in c.F /\ c.file # "" THEN <<Line("fstat"), Line("fstat")>> ELSE <<>>
Description(c, d) == IF "description" \in c.F THEN d ELSE <<>>
RECURSIVE Stats(_, _, _, _, _)
Stats(c, seed, r, vs, i) == IF i > Len(r.ps) THEN <<>>
  ELSE Histogram(c, r.ps[i], vs[i]) \o <<Row(c, seed, r, i)>> \o Values(c, r.ps[i]) \o Stats(c, seed, r, vs, i + 1)
(* the text printed for a result; vs: the histogram's scale for every statistic, any one that keeps the bars within the 20 rows *)
Text(c, seed, r, first, vs, d) ==
  (IF first THEN First(c, seed) ELSE <<>>) \o FileStat(c) \o Description(c, d) \o Stats(c, seed, r, vs, 1)
ScaleOk(r, vs) == \A i \in 1..Len(r.ps) : vs[i] >= 1 /\ BinMax(r.ps[i]) <= 20 * vs[i]

Same(e, g, white) == /\ e.t = g.t /\ Len(e.f) = Len(g.f)
                     /\ \A k \in 1..Len(e.f) : IF e.f[k] = Measured THEN g.f[k] # "" ELSE e.f[k] = g.f[k]
                     /\ (e.t = "tok" /\ ~white) => ~g.ws
Printed(exp, got, white) == Len(exp) = Len(got) /\ \A k \in 1..Len(exp) : Same(exp[k], got[k], white)
=============================================================================
