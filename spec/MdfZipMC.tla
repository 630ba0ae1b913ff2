------------------------------- MODULE MdfZipMC -------------------------------
(* Every length and width within the bound, with all bytes distinct (the       *)
(* transposition does not look at the bytes), built up byte by byte.           *)
EXTENDS MdfZip, TLC
CONSTANTS MaxLen, MaxWidth
VARIABLES x, w
vars == <<x, w>>
Init == x = <<>> /\ w \in 0..MaxWidth
Next == Len(x) < MaxLen /\ x' = Append(x, Len(x) + 1) /\ w' = w
Spec == Init /\ [][Next]_vars
Inverse == InvTranspose(Transpose(x, w), w) = x /\ Transpose(InvTranspose(x, w), w) = x
Permutes == \A v \in DOMAIN x : \E i \in DOMAIN x : Transpose(x, w)[i] = v
\* transposing twice with swapped dimensions is the identity when the records are complete
Swap == (w > 0 /\ Len(x) > 0 /\ Len(x) % w = 0) => Transpose(Transpose(x, w), Len(x) \div w) = x
\* within a column the records keep their order, and columns follow each other
Columns == w > 0 => LET rows == Len(x) \div w  y == Transpose(x, w) IN
             \A r \in 0..(rows - 1) : \A c \in 0..(w - 1) : y[c * rows + r + 1] = r * w + c + 1
===============================================================================
