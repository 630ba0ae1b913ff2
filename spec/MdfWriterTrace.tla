------------------------- MODULE MdfWriterTrace -------------------------
(* Checks recorded call histories of the real writer against MdfWriter.     *)
(* One initial state per recorded scenario; each event is one action; the   *)
(* file contents reported by the reader must be those the model predicts.   *)
(* A history the model cannot follow ends in a deadlock.                    *)
EXTENDS MdfWriter, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<vars, tr, pc, sid>>
Ev == Traces[tr].ev

Sel(s, c) == SelectSeq(s, LAMBDA x : x.c = c)
\* what a reader reports for channel group g of a data group holding samples s
\* the master value of a stored sample: calculated, or set by the user (m) when the calculation is off
Master(s) == IF s.v.m = <<>> THEN s.rel ELSE s.v.m[1]
GroupIs(o, S) ==
  /\ o.n = Len(S)
  /\ \/ o.mt = <<>> /\ ~o.hasm
     \/ /\ o.hasm /\ Len(o.mt) = Len(S)
        /\ \A i \in DOMAIN S : LET x == Master(S[i]) IN x = None \/ o.mt[i] = x
  /\ \A k \in DOMAIN o.ch :
       /\ Len(o.ch[k].v) = Len(S) /\ Len(o.ch[k].ok) = Len(S)
       /\ \A i \in DOMAIN S : /\ o.ch[k].ok[i] = S[i].v.ok[k]
                              /\ (o.ch[k].ok[i] => o.ch[k].v[i] = S[i].v.v[k])
  /\ \A i \in DOMAIN S : Len(S[i].v.v) = Len(o.ch)
FileIs(o, content) ==
  /\ o.ok
  /\ Len(o.dgs) = Len(ngrp)
  /\ \A d \in DOMAIN ngrp :
       /\ Len(o.dgs[d]) = ngrp[d]
       /\ \A c \in 1..ngrp[d] : GroupIs(o.dgs[d][c], Sel(content[d], c))
HeaderIs(o) == hdr = None \/ o.start = hdr

\* an interrupted file: at least what completed background writes stored, at most what was accepted
Between(o) ==
  /\ o.ok
  /\ Len(o.dgs) = Len(ngrp)
  /\ \A d \in DOMAIN ngrp :
       /\ Len(o.dgs[d]) = ngrp[d]
       /\ \E k \in 0..Len(queue[d]) :
            \A c \in 1..ngrp[d] : GroupIs(o.dgs[d][c], Sel(disk[d] \o SubSeq(queue[d], 1, k), c))

\* a writer may refuse calls after the session was finalised, so its state is free then
Finned == \E i \in 1..(pc - 1) : Ev[i].op = "fin" /\ \A j \in i..pc : Ev[j].op # "open"

Step(e) ==
  CASE e.op = "open"   -> Open([w |-> e.w, z |-> e.z, per |-> e.per, pre |-> e.pre]) /\ e.res
    [] e.op = "groups" -> AddGroups([i \in DOMAIN e.dgs |-> Len(e.dgs[i])])
    [] e.op = "init"   -> InitMeas /\ e.res
    [] e.op = "save"   -> Save(base + e.d, e.c, e.t, [v |-> e.v, ok |-> e.ok, m |-> e.m])
    [] e.op = "tick"   -> IF live THEN Tick ELSE UNCHANGED vars
    [] e.op = "start"  -> Start(e.t)
    [] e.op = "stop"   -> Stop(e.t)
    [] e.op = "fin"    -> Fin /\ (Finned \/ e.res)
    [] e.op = "close"  -> Close
    [] e.op = "snap"   -> UNCHANGED vars /\ Between(e.out)
    [] e.op = "read"   -> UNCHANGED vars /\ FileIs(e.out, disk) /\ HeaderIs(e.out) /\ e.out.fin /\ e.out.rd
    [] OTHER -> FALSE

TInit == Init /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE /\ Step(Ev[pc])
              /\ (st' = Ev[pc].st \/ Finned)
              /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
========================================================================
