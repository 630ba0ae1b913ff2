----------------------------- MODULE MdfCodec ------------------------------
(* How channel values, array elements and texts are coded in a record.       *)
(* Values are sequences of bytes, least significant byte first, so that      *)
(* 64-bit numbers stay inside TLC's integers.                                *)
EXTENDS Integers, Sequences, FiniteSets

Pow2(n) == 2^n
BitOf(byte, n) == (byte \div Pow2(n)) % 2
BytesUp(bits) == (bits + 7) \div 8
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* A channel: dt \in {"u","s","f","t","l","w","b","d"} unsigned, signed, float, UTF-8 text,    *)
(* Latin-1 text, UTF-16 text, byte array, date; be = big endian; byte/bit/bits = position;   *)
(* n = number of array elements; inv = has an invalidation bit.                         *)

(* ---- where bit k (0 = least significant) of element i lies ---- *)
(* Little endian: the bits follow each other upwards.                 *)
(* Big endian: the bytes the value touches are read as one number,     *)
(* first byte most significant, and the value starts bit bits above    *)
(* its least significant bit.                                          *)
Start(ch, i) == ch.byte * 8 + ch.bit + i * ch.bits
Pos(ch, i, k) ==
  LET s == Start(ch, i)
      b0 == s \div 8
      bo == s % 8
      nb == BytesUp(bo + ch.bits)
      p == bo + k
  IN IF ch.be THEN <<b0 + nb - 1 - (p \div 8), p % 8>> ELSE <<b0 + (p \div 8), p % 8>>
Cells(ch, i) == {Pos(ch, i, k) : k \in 0..(ch.bits - 1)}

RECURSIVE SumBits(_, _, _, _)
SumBits(rec, ch, i, ks) ==     \* ks = <<first, last>>: value of the bits first..last as a number < 256
  IF ks[1] > ks[2] THEN 0
  ELSE LET q == Pos(ch, i, ks[1]) IN BitOf(rec[q[1] + 1], q[2]) + 2 * SumBits(rec, ch, i, <<ks[1] + 1, ks[2]>>)
\* the raw bits of element i, least significant byte first
RawBits(rec, ch, i) ==
  [j \in 1..BytesUp(ch.bits) |-> SumBits(rec, ch, i, <<8 * (j - 1), Min2(8 * j, ch.bits) - 1>>)]

(* ---- widening to 64 bits ---- *)
Ext(raw, bits, signed) ==
  LET n == Len(raw)
      top == raw[n]
      tb == bits - 8 * (n - 1)
      neg == signed /\ BitOf(top, tb - 1) = 1
  IN [j \in 1..8 |-> IF j < n THEN raw[j]
                     ELSE IF j = n THEN (IF neg THEN top + 256 - Pow2(tb) ELSE top)
                     ELSE IF neg THEN 255 ELSE 0]

(* ---- floating point: IEEE half and single widened to double ---- *)
BitsLE(b) == [k \in 1..(8 * Len(b)) |-> BitOf(b[((k - 1) \div 8) + 1], (k - 1) % 8)]
PackLE(bits) == [j \in 1..(Len(bits) \div 8) |->
  bits[8*j-7] + 2*bits[8*j-6] + 4*bits[8*j-5] + 8*bits[8*j-4] + 16*bits[8*j-3] + 32*bits[8*j-2] + 64*bits[8*j-1] + 128*bits[8*j]]
NumLE(bits) == LET RECURSIVE N(_) N(k) == IF k > Len(bits) THEN 0 ELSE bits[k] + 2 * N(k + 1) IN N(1)
Widen(b, mb, eb) ==     \* mb mantissa bits, eb exponent bits
  LET x == BitsLE(b)
      sign == x[mb + eb + 1]
      e == NumLE(SubSeq(x, mb + 1, mb + eb))
      m == SubSeq(x, 1, mb)
      bias == Pow2(eb - 1) - 1
      nz == {k \in 1..mb : m[k] = 1}
      hi == CHOOSE k \in nz : \A j \in nz : j <= k      \* leading one of a subnormal
      e2 == IF e = Pow2(eb) - 1 THEN 2047
            ELSE IF e > 0 THEN e - bias + 1023
            ELSE IF nz = {} THEN 0 ELSE (1 - bias) - (mb - hi + 1) + 1023
      m2 == [k \in 1..52 |->
              LET j == k - (52 - mb) IN
              IF e = 0 /\ nz # {} THEN (LET q == k - (52 - (hi - 1)) IN IF q >= 1 /\ q <= hi - 1 THEN m[q] ELSE 0)
              ELSE IF j >= 1 THEN m[j] ELSE 0]
  IN PackLE(m2 \o [k \in 1..11 |-> (e2 \div Pow2(k - 1)) % 2] \o <<sign>>)
FloatVal(raw, bits) == IF bits = 16 THEN Widen(raw, 10, 5) ELSE IF bits = 32 THEN Widen(raw, 23, 8) ELSE raw

(* ---- text ---- *)
RECURSIVE UpTo0(_, _)
UpTo0(s, k) == IF k > Len(s) \/ s[k] = 0 THEN <<>> ELSE <<s[k]>> \o UpTo0(s, k + 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Utf8Of(cp) == IF cp < 128 THEN <<cp>>
              ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
              ELSE <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Units(s, be) == [k \in 1..(Len(s) \div 2) |-> IF be THEN 256 * s[2*k-1] + s[2*k] ELSE s[2*k-1] + 256 * s[2*k]]
Decode8(s, dt, be) ==
  CASE dt = "t" -> UpTo0(s, 1)
    [] dt = "l" -> LET u == UpTo0(s, 1) IN Flat([k \in 1..Len(u) |-> Utf8Of(u[k])])
    [] dt = "w" -> LET u == UpTo0(Units(s, be), 1) IN Flat([k \in 1..Len(u) |-> Utf8Of(u[k])])
    [] OTHER -> s

(* ---- the value of an element of the record ---- *)
Value(rec, ch, i) ==
  CASE ch.dt = "u" -> Ext(RawBits(rec, ch, i), ch.bits, FALSE)
    [] ch.dt = "s" -> Ext(RawBits(rec, ch, i), ch.bits, TRUE)
    [] ch.dt = "f" -> FloatVal(RawBits(rec, ch, i), ch.bits)
    [] OTHER -> Decode8(SubSeq(rec, ch.byte + 1, ch.byte + ch.bits \div 8), ch.dt, ch.be)

(* ---- storing a value: the channel's cells take the value's bits, nothing else changes ---- *)
StoreNum(rec, ch, i, raw) ==
  LET cells == Cells(ch, i)
      Of(c) == CHOOSE k \in 0..(ch.bits - 1) : Pos(ch, i, k) = c
      NewBit(b, n) == IF <<b - 1, n>> \in cells THEN (LET k == Of(<<b - 1, n>>) IN BitOf(raw[(k \div 8) + 1], k % 8)) ELSE BitOf(rec[b], n)
  IN [b \in 1..Len(rec) |->
       IF \E n \in 0..7 : <<b - 1, n>> \in cells
       THEN NewBit(b,0) + 2*NewBit(b,1) + 4*NewBit(b,2) + 8*NewBit(b,3) + 16*NewBit(b,4) + 32*NewBit(b,5) + 64*NewBit(b,6) + 128*NewBit(b,7)
       ELSE rec[b]]
\* text is cut so that a terminating zero fits; byte arrays are cut or filled with zeroes
Room(ch) == LET nb == ch.bits \div 8 IN IF ch.dt \in {"b", "d"} THEN nb ELSE IF ch.dt = "w" THEN 2 * ((nb \div 2) - 1) ELSE nb - 1
StoreBytes(rec, ch, s) ==
  LET nb == ch.bits \div 8
      t == SubSeq(s, 1, Min2(Len(s), Room(ch)))
  IN [b \in 1..Len(rec) |-> IF b > ch.byte /\ b <= ch.byte + nb
                            THEN (IF b - ch.byte <= Len(t) THEN t[b - ch.byte] ELSE 0) ELSE rec[b]]

Numeric(ch) == ch.dt \in {"u", "s", "f"}
Store(rec, ch, i, raw) == IF Numeric(ch) THEN StoreNum(rec, ch, i, raw) ELSE StoreBytes(rec, ch, raw)

(* ---- layouts ---- *)
AllCells(ch) == IF Numeric(ch) THEN UNION {Cells(ch, i) : i \in 0..(ch.n - 1)}
                ELSE {<<ch.byte + k, b>> : k \in 0..((ch.bits \div 8) - 1), b \in 0..7}
Bytes(ch) == {c[1] : c \in AllCells(ch)}
LayoutOk(lay, size) ==
  /\ \A a \in 1..Len(lay) : \A c \in Bytes(lay[a]) : c >= 0 /\ c < size
  /\ \A a, b \in 1..Len(lay) : a < b => Bytes(lay[a]) \cap Bytes(lay[b]) = {}

(* text given as UTF-8 is stored in the character set of the channel *)
RECURSIVE CodePoints(_)
CodePoints(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET b == s[1]
           n == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE 3
           cp == IF n = 1 THEN b ELSE IF n = 2 THEN (b - 192) * 64 + s[2] - 128
                 ELSE (b - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
       IN <<cp>> \o CodePoints(SubSeq(s, n + 1, Len(s)))
TextBytes(s, dt, be) ==
  CASE dt = "l" -> CodePoints(s)
    [] dt = "w" -> Flat([k \in 1..Len(CodePoints(s)) |-> LET c == CodePoints(s)[k] IN
                         IF be THEN <<c \div 256, c % 256>> ELSE <<c % 256, c \div 256>>])
    [] OTHER -> s
=============================================================================
