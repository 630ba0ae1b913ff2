------------------------------ MODULE MdfScale ------------------------------
(* Recordings beyond the sizes that fit in one byte or two: many samples, wide records, many groups.  N samples are dealt *)
(* to D data groups of G channel groups each in turn; a value is a rule of the sample and channel number, so a read can   *)
(* be judged by the number of valid values and a position-weighted sum over all samples.                                  *)
EXTENDS Integers, Sequences, SequencesExt
VARIABLE cfg            \* [D, G, C, N, inv] of the file, or <<>>
Base(c, d, g) == d + c.D * g
SampleNo(c, d, g, k) == Base(c, d, g) + c.D * c.G * k
Nof(c, d, g) == IF Base(c, d, g) >= c.N THEN 0 ELSE ((c.N - 1 - Base(c, d, g)) \div (c.D * c.G)) + 1
Rule(s, ch) == (s * 7 + ch * 13) % 65521
Valid(c, s, ch) == ~c.inv \/ (s + ch) % 3 # 0
\* samples of an interval, the first sample being number one
InRange(n, lo, hi) == [i \in 1..(IF hi < n THEN hi ELSE n) - lo + 1 |-> lo + i - 2]
Some(n, lo, hi) == IF lo > n \/ hi < lo THEN <<>> ELSE InRange(n, IF lo < 1 THEN 1 ELSE lo, hi)
Sum(c, d, g, ch, ks) ==
  FoldLeft(LAMBDA acc, k : LET s == SampleNo(c, d, g, k) IN (acc + (Rule(s, ch) + (IF Valid(c, s, ch) THEN 1 ELSE 0)) * ((k % 1009) + 1)) % 1000003, 0, ks)
Good(c, d, g, ch, ks) == FoldLeft(LAMBDA acc, k : IF Valid(c, SampleNo(c, d, g, k), ch) THEN acc + 1 ELSE acc, 0, ks)
=============================================================================
