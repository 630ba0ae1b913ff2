----------------------------- MODULE MdfConvMC ------------------------------
(* Every small rule and raw value: the rules are total, agree at their keys, *)
(* stay between neighbouring values, and assign interval ends as required.   *)
EXTENDS MdfConv
CONSTANTS D          \* domain of keys and raw values: 0..D
VARIABLES cc, int, x
vars == <<cc, int, x>>
V3 == {0, 5, 9}
Tabs == {[ty |-> t, p |-> <<a, u, b, v, c, w>>, refs |-> <<>>] : t \in {"tab", "tabi"}, a \in 0..D, b \in 0..D, c \in 0..D, u \in V3, v \in V3, w \in V3}
Asc(c) == c.p[1] < c.p[3] /\ c.p[3] < c.p[5]
Rngs == {[ty |-> "rng", p |-> <<a, b, 1, c, e, 2, 7>>, refs |-> <<>>] : a \in 0..D, b \in 0..D, c \in 0..D, e \in 0..D}
Tx(n) == [k |-> "tx", t |-> <<n>>]
R2t == {[ty |-> "r2t", p |-> <<a, b, c, e>>, refs |-> <<Tx(1), Tx(2), Tx(3)>>] : a \in 0..D, b \in 0..D, c \in 0..D, e \in 0..D}
Init == /\ cc \in {c \in Tabs : Asc(c)} \cup Rngs \cup R2t
        /\ int \in BOOLEAN /\ x \in 0..D
Next == UNCHANGED vars
MCSpec == Init /\ [][Next]_vars
R == Conv(cc, int, x)
Total == R.k \in {"num", "txt"}
AtKeys == cc.ty \in {"tab", "tabi"} => \A i \in 1..3 : x = cc.p[2 * i - 1] => R.n * 4 = cc.p[2 * i] * R.d
Between == cc.ty \in {"tab", "tabi"} =>
  LET vs == {cc.p[2], cc.p[4], cc.p[6]} IN
  /\ \E v \in vs : 4 * R.n >= v * R.d
  /\ \E v \in vs : 4 * R.n <= v * R.d
  /\ cc.ty = "tab" => \E v \in vs : 4 * R.n = v * R.d
Ends == cc.ty \in {"rng", "r2t"} =>
  LET lo1 == cc.p[1]
      hi1 == cc.p[2]
      first == IF cc.ty = "rng" THEN R.n = 1 ELSE R.t = <<1>>
  IN /\ (x = hi1 /\ lo1 < hi1) => (first <=> int)
     /\ (x > lo1 /\ x < hi1) => first
     /\ (x < lo1 \/ x > hi1) => ~first
=============================================================================
