------------------------------ MODULE MdfSort -------------------------------
(* Sorting a file.  The source is a file as MdfRead describes it: groups     *)
(* whose records are interleaved in one stream per data group.  Sorting      *)
(* gives a file with one data group per group of measured records; nothing   *)
(* a reader sees of a group changes.                                         *)
EXTENDS MdfRead

(* the groups that hold samples of their own, in file order *)
Owners(skip) ==
  LET of(d) == SelectSeq([g \in DOMAIN file[d].cgs |-> <<d, g>>],
                         LAMBDA p : ~file[p[1]].cgs[p[2]].vlsd /\ ~(skip /\ Total(p[1], p[2]) = 0))
  IN Flat([d \in DOMAIN file |-> of(d)])
\* the values of a channel, sample by sample
Column(d, g, c) == Shows([dg |-> d, cg |-> g, cn |-> c, vl |-> TRUE], 1..Len(Samples(d, g)))
=============================================================================
