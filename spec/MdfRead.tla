------------------------------ MODULE MdfRead -------------------------------
(* Reading a file.  A data group is a logical byte stream cut into fragments *)
(* (data blocks, compressed or not); the stream is a sequence of records,    *)
(* each introduced by a record identifier.  Observers watch channels, reads  *)
(* deliver samples to them, and values depend on the stream alone.           *)
EXTENDS MdfCodec

Num4(s, p) == s[p] + 256 * s[p + 1] + 65536 * s[p + 2] + 16777216 * s[p + 3]
NumW(s, p, w) == IF w = 4 THEN Num4(s, p) ELSE s[p]

(* dg = [idw, tail, frags, cgs]; cg = [rid (8 bytes), size, inval, cyc, vlsd, chs] *)
(* size = bytes of a record including invalidation bytes; tail = 1 if the identifier is repeated *)
(* after the record (MDF 3); lw = width of the length of a variable length record *)
Stream(dg) == Flat(dg.frags)
\* The group an identifier belongs to; without identifiers there is one group only.
GroupAt(dg, s, p) ==
  IF dg.idw = 0 THEN 1
  ELSE LET m == {g \in DOMAIN dg.cgs : SubSeq(dg.cgs[g].rid, 1, dg.idw) = SubSeq(s, p, p + dg.idw - 1)}
       IN IF m = {} THEN 0 ELSE CHOOSE g \in m : TRUE
(* Complete records from position p on: sequence of [g, r] *)
RECURSIVE Parse(_, _, _, _)
Parse(dg, s, p, lw) ==
  IF p + dg.idw > Len(s) + 1 \/ p > Len(s) THEN <<>>
  ELSE LET g == GroupAt(dg, s, p)
           q == p + dg.idw
           var == g # 0 /\ dg.cgs[g].vlsd
           head == IF var THEN lw ELSE 0
       IN IF g = 0 \/ q + head > Len(s) + 1 THEN <<>>
          ELSE LET n == IF var THEN NumW(s, q, lw) ELSE dg.cgs[g].size
                   e == q + head + n
               IN IF e > Len(s) + 1 THEN <<>>
                  ELSE <<[g |-> g, r |-> SubSeq(s, q + head, e - 1)]>> \o Parse(dg, s, e + dg.tail, lw)
(* number the records within their groups and drop what exceeds the declared count *)
CountOf(ps, n, g) == Cardinality({j \in 1..n : ps[j].g = g})
Declared(dg, g, ps) == IF dg.cgs[g].cyc < 0 THEN CountOf(ps, Len(ps), g) ELSE dg.cgs[g].cyc
Numbered(dg, ps) == [j \in DOMAIN ps |-> [g |-> ps[j].g, r |-> ps[j].r, k |-> CountOf(ps, j, ps[j].g)]]
Content(dg) ==
  LET ps == Parse(dg, Stream(dg), 1, 4)
      ns == Numbered(dg, ps)
      all == SelectSeq(ns, LAMBDA x : x.k <= Declared(dg, x.g, ps))
  IN [all |-> all, by |-> [g \in DOMAIN dg.cgs |-> SelectSeq(all, LAMBDA x : x.g = g)]]

VARIABLES file,     \* the data groups
          content,  \* per data group: its numbered records in stream order (all) and group by group (by)
          watch,    \* observer -> [dg, cg, cn, vl]; cn = 0: all records of the data group
          seen      \* observer -> samples delivered to it
rvars == <<file, content, watch, seen>>

Open(dgs) == file' = dgs /\ content' = [d \in DOMAIN dgs |-> Content(dgs[d])] /\ watch' = <<>> /\ seen' = <<>>
Samples(d, g) == content[d].by[g]
Total(d, g) == IF file[d].cgs[g].cyc < 0 THEN Len(Samples(d, g)) ELSE file[d].cgs[g].cyc

Attach(o, w) == watch' = [i \in DOMAIN watch \cup {o} |-> IF i = o THEN w ELSE watch[i]]
                /\ seen' = [i \in DOMAIN watch \cup {o} |-> IF i = o THEN {} ELSE seen[i]]
                /\ UNCHANGED <<file, content>>
Detach(o) == watch' = [i \in DOMAIN watch \ {o} |-> watch[i]] /\ seen' = [i \in DOMAIN watch \ {o} |-> seen[i]]
             /\ UNCHANGED <<file, content>>
\* the interval counts the first sample as number one
Hits(k, lo, hi) == k >= lo /\ k <= hi
Deliver(d, lo, hi) ==
  /\ seen' = [o \in DOMAIN watch |->
       IF watch[o].dg # d THEN seen[o]
       ELSE IF watch[o].cn = 0 THEN {j \in DOMAIN content[d].all : Hits(content[d].all[j].k, lo, hi)}
       ELSE seen[o] \cup {k \in 1..Len(Samples(d, watch[o].cg)) : Hits(k, lo, hi)}]
  /\ UNCHANGED <<file, content, watch>>

(* ---- values ---- *)
Invalid(cg, ch, r) == \/ ch.all
                      \/ ch.ib >= 0 /\ BitOf(r[cg.size - cg.inval + (ch.ib \div 8) + 1], ch.ib % 8) = 1
Small(v) == v[1] + 256 * v[2] + 65536 * v[3]      \* offsets and lengths of the examples fit
EntryAt(sd, off) == LET n == Num4(sd, off + 1) IN SubSeq(sd, off + 5, off + 4 + n)
Store2(d, g, c) == Flat(file[d].cgs[g].chs[c].sd)
\* the offset of a variable length value is stored little endian whatever the data type
OffsetIn(r, ch) == Small(Ext(RawBits(r, [ch EXCEPT !.be = FALSE], 0), ch.bits, FALSE))
\* variable length records in a group of their own form a store as well: length and bytes of each record
ValueOf(d, g, c, k) ==
  LET cg == file[d].cgs[g]
      ch == cg.chs[c]
      r == Samples(d, g)[k].r
  IN CASE ch.ty = "virt" -> <<(k - 1) % 256, (k - 1) \div 256, 0, 0, 0, 0, 0, 0>>
       [] ch.ty = "sd" -> Decode8(EntryAt(Store2(d, g, c), OffsetIn(r, ch)), ch.dt, ch.be)
       [] ch.ty = "cg" -> Decode8(Samples(d, ch.ref)[k].r, ch.dt, ch.be)
       [] ch.ty = "ml" -> Decode8(SubSeq(r, ch.byte + 1, ch.byte + Small(Value(r, cg.chs[ch.ref], 0))), ch.dt, ch.be)
       [] OTHER -> Value(r, ch, 0)
OffsetOf(d, g, c, k) == OffsetIn(Samples(d, g)[k].r, file[d].cgs[g].chs[c])
Blank(ch) == IF ch.dt \in {"u", "s", "f"} THEN <<0, 0, 0, 0, 0, 0, 0, 0>> ELSE <<>>
(* What an observer w shows after the samples got were delivered to it *)
Shows(w, got) ==
  LET cg == file[w.dg].cgs[w.cg]
      ch == cg.chs[w.cn]
  IN [k \in 1..Total(w.dg, w.cg) |->
       IF k \in got
       THEN [ok |-> ch.ty = "virt" \/ ~Invalid(cg, ch, Samples(w.dg, w.cg)[k].r),
             v |-> IF ch.ty \in {"sd", "cg"} /\ ~w.vl THEN Blank(ch) ELSE ValueOf(w.dg, w.cg, w.cn, k)]
       ELSE [ok |-> FALSE, v |-> Blank(ch)]]
Logged(w, got) ==
             LET d == w.dg
                 all == content[d].all
                 js == [j \in DOMAIN all |-> j]
                 hit == SelectSeq(js, LAMBDA j : j \in got)
             IN [i \in DOMAIN hit |-> [k |-> all[hit[i]].k - 1, id |-> file[d].cgs[all[hit[i]].g].rid, r |-> all[hit[i]].r]]

(* ---- direct reads of a variable length store ---- *)
RECURSIVE Entries(_, _)
Entries(sd, off) == IF off + 4 > Len(sd) THEN <<>>
                    ELSE <<[at |-> off, v |-> EntryAt(sd, off)]>> \o Entries(sd, off + 4 + Num4(sd, off + 1))
RECURSIVE CgEntries(_, _, _)
CgEntries(rs, i, off) == IF i > Len(rs) THEN <<>>
                         ELSE <<[at |-> off, v |-> rs[i].r]>> \o CgEntries(rs, i + 1, off + 4 + Len(rs[i].r))
AllEntries(d, g, c) == LET ch == file[d].cgs[g].chs[c] IN
                       IF ch.ty = "sd" THEN Entries(Store2(d, g, c), 0) ELSE CgEntries(Samples(d, ch.ref), 1, 0)
Picked(d, g, c, offs) == IF offs = {} THEN AllEntries(d, g, c)
                         ELSE SelectSeq(AllEntries(d, g, c), LAMBDA x : x.at \in offs)

(* ---- sample reductions: mean, minimum and maximum record of every interval ---- *)
SrValue(d, g, s, c, k, j) ==
  LET cg == file[d].cgs[g]
      n == cg.size - cg.inval
      by == Flat(cg.srs[s].frags)
      from == (3 * (k - 1) + j) * n
  IN Value(SubSeq(by, from + 1, from + n), cg.chs[c], 0)
=============================================================================
