------------------------------- MODULE MdfFile --------------------------------
(* The MDF container as the standard defines it: a file is a set of blocks at  *)
(* positions, each with a kind, a length, links and fields.  The predicates    *)
(* say when such a set of blocks is a well-formed MDF 4 or MDF 3 file.         *)
(* A file f is [major, size, id, blocks, groups]: blocks is the sequence of    *)
(* blocks in rising position, a link is a number in that sequence or 0; groups *)
(* gives per data group how its data bytes fall into records.                  *)
EXTENDS Integers, Sequences, FiniteSets
Nil == 0
Max(a, b) == IF a > b THEN a ELSE b
Bit(n, b) == (n \div b) % 2 = 1
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
DataKinds(t) == {"nil", t, "DZ", "DL", "HL"}
Comment == {"nil", "TX", "MD"}
Text == {"nil", "TX"}

(* ------------------------------------------------ MDF 4: links of a block -- *)
NLinks4(b) ==
  CASE b.tag = "HD" -> {6} [] b.tag = "FH" -> {2} [] b.tag = "SI" -> {3} [] b.tag = "DG" -> {4}
    [] b.tag = "CG" -> IF Bit(b.f.flags, 8) THEN {7} ELSE {6, 7}
    [] b.tag = "CN" -> {8 + b.f.nat + (IF Bit(b.f.flags, 4096) THEN 3 ELSE 0)}
    [] b.tag = "CC" -> {4 + b.f.nref}
    [] b.tag = "AT" -> {4}
    [] b.tag = "EV" -> {5 + b.f.nsc + b.f.nat + (IF Bit(b.f.flags, 2) THEN 1 ELSE 0)}
    [] b.tag = "CH" -> {4 + 3 * b.f.n}
    [] b.tag = "DL" -> {1 + b.f.n}
    [] b.tag = "HL" -> {1}
    [] b.tag = "SR" -> {2}
    [] b.tag = "CA" -> 1..100
    [] OTHER -> {0}
Kinds4(b, i) ==
  CASE b.tag = "HD" -> <<{"nil", "DG"}, {"nil", "FH"}, {"nil", "CH"}, {"nil", "AT"}, {"nil", "EV"}, Comment>>[i]
    [] b.tag = "FH" -> <<{"nil", "FH"}, Comment>>[i]
    [] b.tag = "CH" -> IF i <= 4 THEN <<{"nil", "CH"}, {"nil", "CH"}, Text, Comment>>[i]
                       ELSE CASE (i - 5) % 3 = 0 -> {"DG"} [] (i - 5) % 3 = 1 -> {"CG", "nil"} [] OTHER -> {"CN", "nil"}
    [] b.tag = "AT" -> <<{"nil", "AT"}, Text, Text, Comment>>[i]
    [] b.tag = "EV" -> IF i <= 5 THEN <<{"nil", "EV"}, {"nil", "EV"}, {"nil", "EV"}, Text, Comment>>[i]
                       ELSE IF i <= 5 + b.f.nsc THEN {"CG", "CN"} ELSE IF i <= 5 + b.f.nsc + b.f.nat THEN {"AT"} ELSE {"TX"}
    [] b.tag = "DG" -> <<{"nil", "DG"}, {"nil", "CG"}, DataKinds("DT"), Comment>>[i]
    [] b.tag = "CG" -> <<{"nil", "CG"}, {"nil", "CN"}, Text, {"nil", "SI"}, {"nil", "SR"}, Comment, {"nil", "CG"}>>[i]
    [] b.tag = "SI" -> <<Text, Text, Comment>>[i]
    [] b.tag = "CN" -> IF i <= 8 THEN <<{"nil", "CN"}, {"nil", "CN", "CA"}, Text, {"nil", "SI"}, {"nil", "CC"},
                                        CASE b.f.type = 1 -> DataKinds("SD") \union {"CG"} [] b.f.type = 4 -> {"nil", "AT"} [] b.f.type = 5 -> {"nil", "CN"} [] OTHER -> {"nil"},
                                        Comment, Comment>>[i]
                       ELSE IF i <= 8 + b.f.nat THEN {"AT"} ELSE <<{"nil", "DG"}, {"nil", "CG"}, {"nil", "CN"}>>[i - 8 - b.f.nat]
    [] b.tag = "CC" -> IF i <= 4 THEN <<Text, Comment, Comment, {"nil", "CC"}>>[i] ELSE {"nil", "TX", "CC"}
    [] b.tag = "CA" -> {"nil", "CN", "CA", "DG", "CG", "CC", "DT", "DZ", "DL", "HL"}
    [] b.tag = "DL" -> IF i = 1 THEN {"nil", "DL"} ELSE {"DT", "SD", "RD", "DZ"}
    [] b.tag = "HL" -> {"DL"}
    [] b.tag = "SR" -> <<{"nil", "SR"}, DataKinds("RD")>>[i]
    [] OTHER -> {}
(* links that make one block the owner of another *)
Owning4(b, i) ==
  CASE b.tag = "HD" -> i <= 5 [] b.tag \in {"FH", "AT", "EV"} -> i = 1 [] b.tag = "CH" -> i <= 2 [] b.tag = "DG" -> i <= 3
    [] b.tag = "CG" -> i \in {1, 2, 5} [] b.tag = "CN" -> i \in {1, 2} \/ (i = 6 /\ b.f.type = 1) [] b.tag = "DL" -> TRUE [] b.tag = "HL" -> TRUE [] b.tag = "SR" -> TRUE
    [] OTHER -> FALSE
(* bytes after the links *)
Body4(b) ==
  CASE b.tag = "HD" -> 32 [] b.tag = "FH" -> 16 [] b.tag = "SI" -> 8 [] b.tag = "DG" -> 8 [] b.tag = "CG" -> 32 [] b.tag = "CN" -> 72
    [] b.tag = "CC" -> 24 + 8 * b.f.nval [] b.tag = "AT" -> 40 + b.f.emb [] b.tag = "EV" -> 32 [] b.tag = "CH" -> 8
    [] b.tag = "DL" -> 8 + (IF Bit(b.f.flags, 1) THEN 8 ELSE 8 * b.f.n)
    [] b.tag = "HL" -> 8 [] b.tag = "DZ" -> 24 + b.f.clen [] b.tag = "SR" -> 24
    [] OTHER -> b.len - 24 - 8 * b.nl   \* texts, data and arrays: whatever is declared
Tag(f, l) == IF l = Nil THEN "nil" ELSE f.blocks[l].tag

ParamsOk(b) ==  \* number of values and references a conversion of that type has
  CASE b.f.type = 0 -> b.f.nval = 0 [] b.f.type = 1 -> b.f.nval = 2 [] b.f.type = 2 -> b.f.nval = 6
    [] b.f.type = 3 -> b.f.nref = 1 [] b.f.type \in {4, 5} -> b.f.nval % 2 = 0 [] b.f.type = 6 -> b.f.nval % 3 = 1
    [] b.f.type = 7 -> b.f.nref = b.f.nval + 1 [] b.f.type = 8 -> b.f.nval % 2 = 0 /\ b.f.nref = (b.f.nval \div 2) + 1
    [] b.f.type = 9 -> b.f.nval = b.f.nref + 1 [] b.f.type = 10 -> b.f.nref % 2 = 1 [] b.f.type = 11 -> b.f.nval = b.f.nref
    [] OTHER -> TRUE
BlockOk4(f, b) ==
  /\ b.tag # "none" /\ "bad" \notin DOMAIN b.f
  /\ b.pos % 8 = 0
  /\ b.nl \in NLinks4(b)
  /\ b.len = 24 + 8 * b.nl + Body4(b)
  /\ b.pos + b.len <= f.size
  /\ (b.tag \in {"TX", "MD"} => b.len > 24 /\ b.f.term /\ b.f.clean /\ b.f.utf8 /\ b.f.xml)
  /\ (b.tag = "CC" => ParamsOk(b))
LinksOk4(f, b) ==
  \A i \in DOMAIN b.links : /\ Tag(f, b.links[i]) \in Kinds4(b, i)
                            /\ (b.links[i] # Nil /\ f.blocks[b.links[i]].tag = "MD" /\ b.tag # "DG" /\ f.blocks[b.links[i]].f.xml)
                                 => f.blocks[b.links[i]].f.root \in {"HDcomment", "FHcomment", "EVcomment", "CHcomment", "ATcomment", "SIcomment", "CGcomment", "CNcomment", "CCcomment", "CNunit", "CCunit", "DGcomment"}
(* nothing overlaps and everything starts behind the identification *)
Apart(f) ==
  /\ f.blocks # <<>> /\ f.blocks[1].pos = 64
  /\ \A i \in DOMAIN f.blocks : i < Len(f.blocks) => f.blocks[i].pos + f.blocks[i].len <= f.blocks[i + 1].pos
Single(f, Own(_, _)) ==
  LET Owned == {"DG", "CG", "CN", "FH", "AT", "EV", "CH", "DL", "HL", "DT", "SD", "RD", "DZ", "SR", "CA"}
      own == UNION {LET b == f.blocks[o] IN {<<o, i, b.links[i]>> : i \in {j \in DOMAIN b.links : Own(b, j) /\ b.links[j] # Nil}} : o \in DOMAIN f.blocks}
      owned == {p \in own : f.blocks[p[3]].tag \in Owned /\ ~(f.blocks[p[1]].tag = "CN" /\ f.blocks[p[3]].tag = "CG")}
  IN Cardinality({p[3] : p \in owned}) = Cardinality(owned)

(* ------------------------------------------------------------ MDF 4: data -- *)
SizeOf(b) == IF b.tag \in {"DT", "SD", "RD"} THEN b.f.size ELSE b.f.orig
RECURSIVE Lists(_, _)
Lists(f, l) == IF l = Nil THEN <<>> ELSE <<l>> \o Lists(f, f.blocks[l].links[1])
Pieces(f, l) ==  \* data blocks behind a data link, in order
  LET DlPieces(d) == LET RECURSIVE Cat(_)
                         Cat(x) == IF x = <<>> THEN <<>> ELSE Tail(f.blocks[Head(x)].links) \o Cat(Tail(x))
                     IN Cat(Lists(f, d))
  IN CASE l = Nil -> <<>>
       [] f.blocks[l].tag = "HL" -> DlPieces(f.blocks[l].links[1])
       [] f.blocks[l].tag = "DL" -> DlPieces(l)
       [] OTHER -> <<l>>
StreamOk(f, l, kind) ==
  LET ps == Pieces(f, l)
      dls == CASE l = Nil -> <<>> [] f.blocks[l].tag = "HL" -> Lists(f, f.blocks[l].links[1]) [] f.blocks[l].tag = "DL" -> Lists(f, l) [] OTHER -> <<>>
      RECURSIVE Offs(_)
      Offs(x) == IF x = <<>> THEN <<>> ELSE f.blocks[Head(x)].f.offs \o Offs(Tail(x))
      size == [i \in DOMAIN ps |-> SizeOf(f.blocks[ps[i]])]
  IN /\ \A i \in DOMAIN ps : LET b == f.blocks[ps[i]]
                             IN /\ b.tag = kind \/ (b.tag = "DZ" /\ b.f.otag = kind)
                                /\ (b.tag = "DZ" => /\ b.f.ok /\ b.f.size = b.f.orig /\ b.f.zip \in {0, 1}
                                                    /\ (b.f.zip = 1 => b.f.par > 0)
                                                    /\ (f.blocks[l].tag = "HL" => b.f.zip = f.blocks[l].f.zip))
     /\ \A d \in Range(dls) : /\ f.blocks[d].f.n > 0
                              /\ Bit(f.blocks[d].f.flags, 1) = Bit(f.blocks[dls[1]].f.flags, 1)
                              /\ f.blocks[d].f.equal = f.blocks[dls[1]].f.equal
     /\ (dls # <<>> /\ f.blocks[l].tag = "HL") => Bit(f.blocks[l].f.flags, 1) = Bit(f.blocks[dls[1]].f.flags, 1)
     /\ dls # <<>> =>
          IF Bit(f.blocks[dls[1]].f.flags, 1)
          THEN \A i \in DOMAIN ps : IF i < Len(ps) THEN size[i] = f.blocks[dls[1]].f.equal ELSE size[i] <= f.blocks[dls[1]].f.equal
          ELSE LET o == Offs(dls) IN /\ Len(o) = Len(ps) /\ (\A i \in DOMAIN ps : o[i] = Sum(SubSeq(size, 1, i - 1)))
Total(f, l) == LET ps == Pieces(f, l) IN Sum([i \in DOMAIN ps |-> SizeOf(f.blocks[ps[i]])])
RECURSIVE Chain(_, _)
Chain(f, l) == IF l = Nil THEN <<>> ELSE <<l>> \o Chain(f, f.blocks[l].links[1])
(* positions in the record: bits a channel takes, for those stored in the record *)
RECURSIVE Nested(_, _)
Nested(f, l) == IF l = Nil \/ f.blocks[l].tag # "CN" THEN <<>>
                ELSE <<l>> \o Nested(f, f.blocks[l].links[2]) \o Nested(f, f.blocks[l].links[1])
FitsRecord4(cg, c) ==
  /\ c.f.bitoff <= 7
  /\ (c.f.type \notin {3, 6} => /\ c.f.bits > 0 /\ 8 * c.f.off + c.f.bitoff + c.f.bits <= 8 * cg.f.data)
  /\ (c.f.type = 1 => c.f.bits = 64 /\ c.f.bitoff = 0)
  /\ (Bit(c.f.flags, 2) /\ ~Bit(c.f.flags, 1) => c.f.ipos < 8 * cg.f.inval)
GroupOk4(f, g) ==
  LET dg == f.blocks[g.dg]
      cgs == Chain(f, dg.links[2])
      rid == dg.f.rid
      vlsd(c) == Bit(f.blocks[c].f.flags, 1)
  IN /\ StreamOk(f, dg.links[3], "DT")
     /\ Total(f, dg.links[3]) = g.size
     /\ rid \in {0, 1, 2, 4, 8} /\ (rid = 0 => Len(cgs) <= 1)
     /\ \A i, j \in DOMAIN cgs : i # j => f.blocks[cgs[i]].f.id # f.blocks[cgs[j]].f.id
     /\ \A i \in DOMAIN cgs : /\ (rid = 1 => f.blocks[cgs[i]].f.id \in 1..255) /\ (rid = 2 => f.blocks[cgs[i]].f.id \in 1..65535)
     /\ ~g.rest
     /\ \A i \in DOMAIN cgs : LET c == f.blocks[cgs[i]] r == g.recs[i] ns == Range(Nested(f, c.links[2]))
                              IN /\ r.cg = cgs[i] /\ r.n = c.f.cycles
                                 /\ IF vlsd(cgs[i]) THEN c.f.data = r.bytes - 4 * r.n /\ c.f.inval = 0 ELSE r.bytes = c.f.cycles * (c.f.data + c.f.inval)
                                 /\ \A k \in ns : vlsd(cgs[i]) \/ FitsRecord4(c, f.blocks[k])
     /\ \A i \in DOMAIN g.vl : LET v == g.vl[i] IN /\ StreamOk(f, f.blocks[v.cn].links[6], "SD")
                                                    /\ v.ok /\ Range(v.offs) \subseteq Range(v.starts)
(* a channel that refers to a group of variable length records refers to one of its own data group *)
AttOk(b) == b.tag = "AT" => /\ (Bit(b.f.flags, 1) => b.f.have = b.f.emb /\ ((b.f.infl = b.f.orig /\ b.f.md5) \/ (b.f.emb = 0 /\ b.f.orig = 0))) /\ (~Bit(b.f.flags, 1) => b.f.emb = 0)
IdOk4(id) == /\ id.file = "MDF     " /\ id.ver \in {"4.00", "4.10", "4.11", "4.20", "4.30"}
             /\ id.num = (CASE id.ver = "4.00" -> 400 [] id.ver = "4.10" -> 410 [] id.ver = "4.11" -> 411 [] id.ver = "4.20" -> 420 [] OTHER -> 430)
             /\ id.unfin = 0 /\ id.cust = 0

(* ---------------------------------------------------------------- MDF 3 -- *)
Body3(f, b) ==
  CASE b.tag = "HD" -> {164, 208} [] b.tag = "DG" -> {24, 28} [] b.tag = "CG" -> {26, 30} [] b.tag = "CN" -> {218, 222, 226, 228}
    [] b.tag = "CC" -> CASE b.f.type = 0 -> {46 + 16} [] b.f.type \in {6, 9} -> {46 + 48} [] b.f.type \in {7, 8} -> {46 + 56} [] b.f.type \in {1, 2} -> {46 + 16 * b.f.n}
                         [] b.f.type = 11 -> {46 + 40 * b.f.n} [] b.f.type = 12 -> {46 + 20 * b.f.n} [] b.f.type = 10 -> 47..302 [] b.f.type = 65535 -> {46} [] OTHER -> 46..65535
    [] b.tag = "TX" -> 4..65535 [] OTHER -> 4..65535
Kinds3(b, i) ==
  CASE b.tag = "HD" -> <<{"nil", "DG"}, {"nil", "TX"}, {"nil", "PR"}>>[i]
    [] b.tag = "DG" -> IF i = 4 THEN {} ELSE <<{"nil", "DG"}, {"nil", "CG"}, {"nil", "TR"}>>[i]
    [] b.tag = "CG" -> <<{"nil", "CG"}, {"nil", "CN"}, {"nil", "TX"}, {"nil", "SR"}>>[i]
    [] b.tag = "CN" -> <<{"nil", "CN"}, {"nil", "CC"}, {"nil", "CE"}, {"nil", "CD"}, {"nil", "TX"}, {"nil", "TX"}, {"nil", "TX"}>>[i]
    [] b.tag = "CC" -> {"nil", "TX"}
    [] OTHER -> {"nil", "TX", "SR"}
Owning3(b, i) == CASE b.tag = "HD" -> i = 1 [] b.tag = "DG" -> i <= 2 [] b.tag = "CG" -> i <= 2 [] b.tag = "CN" -> i = 1 [] OTHER -> FALSE
BlockOk3(f, b) ==
  /\ b.tag # "none" /\ "bad" \notin DOMAIN b.f
  /\ b.len \in Body3(f, b)
  /\ b.pos + b.len <= f.size
  /\ (b.tag = "TX" => b.f.term)
LinksOk3(f, b) == \A i \in DOMAIN b.links : (b.tag = "DG" /\ i = 4) \/ Tag(f, b.links[i]) \in Kinds3(b, i)
GroupOk3(f, g) ==
  LET dg == f.blocks[g.dg]
      cgs == Chain(f, dg.links[2])
  IN /\ Len(cgs) = dg.f.ncg /\ dg.f.rid \in {0, 1, 2} /\ (dg.f.rid = 0 => Len(cgs) <= 1)
     /\ \A i, j \in DOMAIN cgs : i # j => f.blocks[cgs[i]].f.id # f.blocks[cgs[j]].f.id
     /\ (dg.f.rid > 0 => \A i \in DOMAIN cgs : f.blocks[cgs[i]].f.id \in 0..255)
     /\ ~g.rest /\ (g.size > 0 => g.at >= 64 + 164 /\ g.at + g.size <= f.size)
     /\ \A i \in DOMAIN cgs : LET c == f.blocks[cgs[i]]
                                  cns == Chain(f, c.links[2])
                              IN /\ g.recs[i].n = c.f.nrec /\ Len(cns) = c.f.ncn
                                 /\ \A k \in DOMAIN cns : LET n == f.blocks[cns[k]] IN n.f.bits > 0 /\ n.f.start + 8 * n.f.add + n.f.bits <= 8 * c.f.rec
(* the data bytes of a group overlap no block and no other data bytes *)
DataApart3(f) ==
  \A i \in DOMAIN f.groups : LET g == f.groups[i] IN
     g.size > 0 => /\ \A k \in DOMAIN f.blocks : LET b == f.blocks[k] IN b.pos + b.len <= g.at \/ b.pos >= g.at + g.size
                   /\ \A j \in DOMAIN f.groups : (j # i /\ f.groups[j].size > 0) => (f.groups[j].at + f.groups[j].size <= g.at \/ f.groups[j].at >= g.at + g.size)
IdOk3(id) == /\ id.file = "MDF     " /\ id.ver \in {"3.00", "3.10", "3.20", "3.30"} /\ id.order = 0
             /\ id.num = (CASE id.ver = "3.00" -> 300 [] id.ver = "3.10" -> 310 [] id.ver = "3.20" -> 320 [] OTHER -> 330)
             /\ id.unfin = 0 /\ id.cust = 0

(* ------------------------------------------------------------ well-formed -- *)
IdOk(f) == IF f.major = 3 THEN IdOk3(f.id) ELSE IdOk4(f.id)
BlocksOk(f) == \A o \in DOMAIN f.blocks : IF f.major = 3 THEN BlockOk3(f, f.blocks[o]) ELSE BlockOk4(f, f.blocks[o]) /\ AttOk(f.blocks[o])
LinksOk(f) == \A o \in DOMAIN f.blocks : IF f.major = 3 THEN LinksOk3(f, f.blocks[o]) ELSE LinksOk4(f, f.blocks[o])
TreeOk(f) == /\ f.blocks[1].tag = "HD"
             /\ IF f.major = 3 THEN Single(f, Owning3) /\ Len(Chain(f, f.blocks[1].links[1])) = f.blocks[1].f.ndg ELSE Single(f, Owning4)
GroupsOk(f) == /\ {f.groups[i].dg : i \in DOMAIN f.groups} = {o \in DOMAIN f.blocks : f.blocks[o].tag = "DG"}
               /\ \A i \in DOMAIN f.groups : IF f.major = 3 THEN GroupOk3(f, f.groups[i]) ELSE GroupOk4(f, f.groups[i])
               /\ (f.major = 3 => DataApart3(f))
WellFormed(f) == IdOk(f) /\ BlocksOk(f) /\ Apart(f) /\ LinksOk(f) /\ TreeOk(f) /\ GroupsOk(f)
===============================================================================
