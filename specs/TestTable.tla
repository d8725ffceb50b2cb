----------------------------- MODULE TestTable -----------------------------
(* The registered tests: number, name, statistics per pass, standard passes   *)
(* and samples per pass, in ascending number order (dieharder -l; the sizes   *)
(* are what -a runs with).                                                    *)
EXTENDS Naturals, Sequences
T(num, name, nk, ps, ts) == [num |-> num, name |-> name, nk |-> nk, ps |-> ps, ts |-> ts]
Table == <<
  T(0, "diehard_birthdays", 1, 100, 100),
  T(1, "diehard_operm5", 1, 100, 1000000),
  T(2, "diehard_rank_32x32", 1, 100, 40000),
  T(3, "diehard_rank_6x8", 1, 100, 100000),
  T(4, "diehard_bitstream", 1, 100, 2097152),
  T(5, "diehard_opso", 1, 100, 2097152),
  T(6, "diehard_oqso", 1, 100, 2097152),
  T(7, "diehard_dna", 1, 100, 2097152),
  T(8, "diehard_count_1s_stream", 1, 100, 256000),
  T(9, "diehard_count_1s_byte", 1, 100, 256000),
  T(10, "diehard_parking_lot", 1, 100, 0),
  T(11, "diehard_2dsphere", 1, 100, 8000),
  T(12, "diehard_3dsphere", 1, 100, 4000),
  T(13, "diehard_squeeze", 1, 100, 100000),
  T(14, "diehard_sums", 1, 100, 100),
  T(15, "diehard_runs", 2, 100, 100000),
  T(16, "diehard_craps", 2, 100, 200000),
  T(17, "marsaglia_tsang_gcd", 2, 100, 10000000),
  T(100, "sts_monobit", 1, 100, 100000),
  T(101, "sts_runs", 1, 100, 100000),
  T(102, "sts_serial", 30, 100, 100000),
  T(200, "rgb_bitdist", 1, 100, 100000),
  T(201, "rgb_minimum_distance", 1, 1000, 10000),
  T(202, "rgb_permutations", 1, 100, 100000),
  T(203, "rgb_lagged_sum", 1, 100, 1000000),
  T(204, "rgb_kstest_test", 1, 1000, 10000),
  T(205, "dab_bytedistrib", 1, 1, 51200000),
  T(206, "dab_dct", 1, 1, 50000),
  T(207, "dab_filltree", 2, 1, 15000000),
  T(208, "dab_filltree2", 2, 1, 5000000),
  T(209, "dab_monobit2", 1, 1, 65000000),
  T(210, "dab_birthdays1", 1, 1, 2000),
  T(211, "dab_opso2", 2, 1, 67108864) >>
=============================================================================
