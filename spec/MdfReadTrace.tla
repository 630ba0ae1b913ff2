---------------------------- MODULE MdfReadTrace ----------------------------
(* Recorded reads of generated files must be behaviours of MdfRead.          *)
EXTENDS MdfRead, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<rvars, tr, pc, sid>>
Ev == Traces[tr].ev

\* everything the observers show after a read
Seen(list, all, ws, sn) ==
  LET os == {list[i].o : i \in DOMAIN list} IN
  /\ os = (IF all = 0 THEN DOMAIN ws ELSE {o \in DOMAIN ws : ws[o].dg = all})
  /\ \A i \in DOMAIN list :
       LET o == list[i].o
           w == ws[o] IN
       IF w.cn = 0 THEN list[i].vals = Logged(w, sn[o])
       ELSE /\ list[i].vals = Shows(w, sn[o])
            /\ "offs" \in DOMAIN list[i] =>
                 list[i].offs = [k \in 1..Total(w.dg, w.cg) |-> IF k \in sn[o] THEN OffsetOf(w.dg, w.cg, w.cn, k) ELSE 0]

Step(e) ==
  CASE e.op = "file" -> Open(e.dgs)
    [] e.op = "open" -> /\ e.ok /\ e.fin
                        /\ Len(e.shape) = Len(file)
                        /\ \A d \in DOMAIN file :
                             /\ Len(e.shape[d]) = Len(file[d].cgs)
                             /\ \A g \in DOMAIN file[d].cgs :
                                  /\ e.shape[d][g].n = Total(d, g)
                                  /\ e.shape[d][g].names = [c \in DOMAIN file[d].cgs[g].chs |-> file[d].cgs[g].chs[c].name]
                        /\ watch' = <<>> /\ seen' = <<>> /\ UNCHANGED <<file, content>>
    [] e.op = "attach" -> e.got /\ Attach(e.o, [dg |-> e.dg, cg |-> e.cg, cn |-> e.cn, vl |-> e.vl])
    [] e.op = "detach" -> Detach(e.o)
    [] e.op = "read" -> e.ok /\ Deliver(e.dg, 1, 1000000) /\ Seen(e.obs, e.dg, watch, seen')
    [] e.op = "part" -> e.ok /\ Deliver(e.dg, e.min, IF e.max < e.min THEN e.min ELSE e.max) /\ Seen(e.obs, e.dg, watch, seen')
    [] e.op = "look" -> UNCHANGED rvars /\ Seen(e.obs, 0, watch, seen)
    [] e.op = "vlsd" -> e.ok /\ e.got = Picked(e.dg, e.cg, e.cn, {e.offs[i] : i \in DOMAIN e.offs}) /\ UNCHANGED rvars
    [] e.op = "sr" -> /\ e.nsr = Len(file[e.dg].cgs[e.cg].srs) /\ e.ok
                      /\ LET s == file[e.dg].cgs[e.cg].srs[e.sr] IN
                         /\ e.cyc = s.cyc /\ e.iv = s.iv /\ e.sync = s.sync
                         /\ Len(e.vals) = Len(file[e.dg].cgs[e.cg].chs)
                         /\ \A c \in {x \in DOMAIN e.vals : file[e.dg].cgs[e.cg].chs[x].ty # "virt"} :
                              /\ Len(e.vals[c]) = s.cyc
                              /\ \A k \in 1..s.cyc :
                                   /\ e.vals[c][k].ok = ~file[e.dg].cgs[e.cg].chs[c].all
                                   /\ e.vals[c][k].a = SrValue(e.dg, e.cg, e.sr, c, k, 0)
                                   /\ e.vals[c][k].lo = SrValue(e.dg, e.cg, e.sr, c, k, 1)
                                   /\ e.vals[c][k].hi = SrValue(e.dg, e.cg, e.sr, c, k, 2)
                      /\ IF e.via THEN Deliver(e.dg, 1, 1000000) ELSE UNCHANGED rvars
    [] OTHER -> FALSE

TInit == file = <<>> /\ content = <<>> /\ watch = <<>> /\ seen = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
