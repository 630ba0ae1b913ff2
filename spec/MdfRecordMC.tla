---------------------------- MODULE MdfRecordMC ----------------------------
(* The record coding is lossless and channels do not disturb each other:     *)
(* every pair of adjacent channels, positions, widths and byte orders of a    *)
(* small record, every value from a corner set.                              *)
EXTENDS MdfRecord, TLC
CONSTANTS MaxBits, Size
Dts == {"u", "s"}
Corner(bits) == {[j \in 1..BytesUp(bits) |-> b] : b \in {0, 255, 85, 129}}
Trim(raw, bits) == LET n == Len(raw) IN [j \in 1..n |-> IF j = n THEN raw[j] % Pow2(bits - 8 * (n - 1)) ELSE raw[j]]
Chans == [dt : Dts, be : BOOLEAN, byte : 0..(Size - 1), bit : 0..7, bits : 1..MaxBits, n : {1}, inv : {TRUE}]
Fits(ch) == \A c \in AllCells(ch) : c[1] >= 0 /\ c[1] < Size
VARIABLE last
MCInit == /\ rec = [k \in 1..Size |-> 90] /\ inv = {} /\ saved = <<>> /\ last = <<>>
          /\ \E a \in Chans : Fits(a) /\ lay = <<a>>
MCNext == \/ /\ Len(lay) = 1
             /\ \E b \in Chans : /\ b.dt = "u" /\ b.byte \in {lay[1].byte, lay[1].byte + 1}
                                 /\ Fits(b) /\ AllCells(lay[1]) \cap AllCells(b) = {}
                                 /\ lay' = <<lay[1], b>>
             /\ UNCHANGED <<rec, inv, saved, last>>
          \/ /\ Len(lay) = 2 /\ last = <<>>
             /\ \E v \in Corner(lay[1].bits) : \E ok \in BOOLEAN : Set(1, 0, v, ok) /\ last' = <<v, ok>>
MCSpec == MCInit /\ [][MCNext]_<<lay, rec, inv, saved, last>>
\* reading back gives the stored bits; the other channel keeps its value
RoundTrip == last # <<>> => Trim(RawBits(rec, lay[1], 0), lay[1].bits) = Trim(last[1], lay[1].bits)
Quiet == last # <<>> => RawBits(rec, lay[2], 0) = RawBits([k \in 1..Size |-> 90], lay[2], 0)
ValidExact == last # <<>> => (ValidIn(inv, 1, 0) <=> last[2]) /\ ValidIn(inv, 2, 0)
OneCellPerBit == \A c \in 1..Len(lay) : Cardinality(Cells(lay[c], 0)) = lay[c].bits
=============================================================================
