------------------------------ MODULE MdfConv -------------------------------
(* Conversion rules: raw value -> engineering value.                         *)
(* Numbers are integers in quarters (raw values and parameters are multiples *)
(* of 1/4), results are exact fractions [n, d]; texts are byte sequences.    *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Num(n, d) == IF d = 0 THEN [k |-> "bad"] ELSE [k |-> "num", n |-> n, d |-> d]
Txt(t) == [k |-> "txt", t |-> t]
Bad == [k |-> "bad"]
Least(s) == CHOOSE x \in s : \A y \in s : x <= y

\* x lies in the interval [lo, hi] of an integer channel, [lo, hi[ of a floating point channel
Within(int, x, lo, hi) == x >= lo /\ IF int THEN x <= hi ELSE x < hi

(* tables: keys and values alternate, keys ascend *)
Keys(p) == [i \in 1..(Len(p) \div 2) |-> p[2 * i - 1]]
Vals(p) == [i \in 1..(Len(p) \div 2) |-> p[2 * i]]
\* index of the last key not above x, 0 if there is none
Below(ks, x) == Cardinality({i \in DOMAIN ks : ks[i] <= x})
TabI(p, x) ==
  LET ks == Keys(p)
      vs == Vals(p)
      i == Below(ks, x)
  IN IF i = 0 THEN Num(vs[1], 4)
     ELSE IF i = Len(ks) THEN Num(vs[i], 4)
     ELSE Num(vs[i] * (ks[i + 1] - ks[i]) + (x - ks[i]) * (vs[i + 1] - vs[i]), 4 * (ks[i + 1] - ks[i]))
\* without interpolation: the nearest key, the lower one in the middle
Tab(p, x) ==
  LET ks == Keys(p)
      vs == Vals(p)
      i == Below(ks, x)
  IN IF i = 0 THEN Num(vs[1], 4)
     ELSE IF i = Len(ks) THEN Num(vs[i], 4)
     ELSE Num(IF 2 * (x - ks[i]) <= ks[i + 1] - ks[i] THEN vs[i] ELSE vs[i + 1], 4)
(* value ranges: triplets of lower end, upper end, value; the default value is last *)
Rng(p, int, x) ==
  LET n == (Len(p) - 1) \div 3
      m == {i \in 1..n : Within(int, x, p[3 * i - 2], p[3 * i - 1])}
  IN Num(IF m = {} THEN p[Len(p)] ELSE p[3 * Least(m)], 4)
(* which reference a value selects: the one of its key or range, else the last one *)
PickV(p, refs, x) == LET m == {i \in DOMAIN p : p[i] = x} IN IF m = {} THEN Len(refs) ELSE Least(m)
PickR(p, refs, int, x) == LET m == {i \in 1..(Len(p) \div 2) : Within(int, x, p[2 * i - 1], p[2 * i])}
                          IN IF m = {} THEN Len(refs) ELSE Least(m)

RECURSIVE Conv(_, _, _)
Ref(r, int, x) == CASE r.k = "tx" -> Txt(r.t)
                    [] r.k = "nil" -> Txt(<<>>)
                    [] OTHER -> Conv(r.cc, int, x)
Conv(cc, int, x) ==
  LET p == cc.p
      r == cc.refs IN
  CASE cc.ty = "none" -> Num(x, 4)
    [] cc.ty = "lin"  -> IF Len(p) = 1 THEN Num(p[1], 4) ELSE Num(4 * p[1] + p[2] * x, 16)
    [] cc.ty = "rat"  -> Num(p[1] * x * x + 4 * p[2] * x + 16 * p[3], p[4] * x * x + 4 * p[5] * x + 16 * p[6])
    [] cc.ty = "poly" -> LET t == x - p[5] - p[6] IN Num(4 * p[2] - p[4] * t, p[3] * t - 4 * p[1])
    [] cc.ty = "tabi" -> TabI(p, x)
    [] cc.ty = "tab"  -> Tab(p, x)
    [] cc.ty = "rng"  -> Rng(p, int, x)
    [] cc.ty = "v2t"  -> Ref(r[PickV(p, r, x)], int, x)
    [] cc.ty = "r2t"  -> Ref(r[PickR(p, r, int, x)], int, x)
    \* MDF 3: a text table has no default, a range table has it in the first place
    [] cc.ty = "m3t"  -> LET m == {i \in DOMAIN p : p[i] = x} IN IF m = {} THEN Bad ELSE Txt(r[Least(m)].t)
    [] cc.ty = "m3r"  -> LET m == {i \in 2..(Len(p) \div 2) : Within(int, x, p[2 * i - 1], p[2 * i])}
                         IN Txt(r[IF m = {} THEN 1 ELSE Least(m)].t)
    [] OTHER -> Bad
(* text channels *)
ConvT(cc, t) ==
  LET p == cc.p
      r == cc.refs IN
  CASE cc.ty = "none" -> Txt(t)
    [] cc.ty = "t2v" -> LET m == {i \in DOMAIN r : r[i].t = t} IN Num(IF m = {} THEN p[Len(p)] ELSE p[Least(m)], 4)
    [] cc.ty = "t2t" -> LET m == {i \in 1..(Len(r) \div 2) : r[2 * i - 1].t = t}
                        IN Txt(IF m = {} THEN r[Len(r)].t ELSE r[2 * Least(m)].t)
    [] OTHER -> Bad
(* an observed number, given in 1/1024 and rounded, is the fraction n/d *)
Close(e, n, d) == 2 * Abs(e * d - 1024 * n) <= Abs(d) + Abs(d) \div 64 + 1
=============================================================================
