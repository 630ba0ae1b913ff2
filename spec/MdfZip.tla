-------------------------------- MODULE MdfZip --------------------------------
(* Lossless storage of byte strings: compression (abstract: a stream stands   *)
(* for the content it was made of, damage is visible) and transposition.       *)
EXTENDS Integers, Sequences
\* bytes of x in column order when x is cut in records of w bytes; an incomplete last record keeps its place
Transpose(x, w) == IF w = 0 THEN x
  ELSE LET rows == Len(x) \div w IN
       [i \in DOMAIN x |-> IF i > rows * w THEN x[i]
                           ELSE LET c == (i - 1) \div rows  r == (i - 1) % rows IN x[r * w + c + 1]]
InvTranspose(x, w) == IF w = 0 THEN x
  ELSE LET rows == Len(x) \div w IN
       [i \in DOMAIN x |-> IF i > rows * w THEN x[i]
                           ELSE LET r == (i - 1) \div w  c == (i - 1) % w IN x[c * rows + r + 1]]
\* outcome of inflating a stream of content c: state "intact", "cut" or "hurt"; room is the size of the destination (-1 = unlimited)
Delivers(c, size, state, room, ok, out) ==
  CASE state = "intact" /\ (room < 0 \/ room >= size) -> ok /\ out = c
    [] state = "hurt" -> ok => out = c
    [] OTHER -> ~ok
===============================================================================
