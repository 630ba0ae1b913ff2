----------------------------- MODULE MdfBusTrace ------------------------------
EXTENDS MdfBus, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid, cfg, obj, log
tvars == <<tr, pc, sid, cfg, obj, log>>
Ev == Traces[tr].ev
Cur(o) == IF o \in DOMAIN obj THEN obj[o] ELSE [x \in {"DataBytes"} |-> <<>>]
Put(o, m) == obj' = [x \in DOMAIN obj \cup {o} |-> IF x = o THEN m ELSE obj[x]] /\ UNCHANGED <<cfg, log>>
RowOk(g, i) == LET s == log[g.name][i] IN /\ g.rows[i].t = s.t - cfg.start /\ Shows(g.name, cfg.mand, cfg.storage, s.m, g.rows[i])
Group(g) == /\ g.name \in DOMAIN log /\ g.n = Len(log[g.name])
            /\ Len(g.rows) = Len(log[g.name])
            /\ \A i \in DOMAIN g.rows : RowOk(g, i)
CanOk(g, i) == LET s == log[g.name][i]  o == g.rows[i] IN o.t = s.t - cfg.start /\ o.kind = g.name /\ Recovers(g.name, cfg.mand, s.m, o)
Can(g) == /\ g.name \in DOMAIN log /\ Len(g.rows) = Len(log[g.name])
          /\ \A i \in DOMAIN g.rows : CanOk(g, i)
Step(e) ==
  CASE e.op = "cfg" -> cfg' = e /\ log' = [k \in {e.kinds[i] : i \in DOMAIN e.kinds} |-> <<>>] /\ UNCHANGED obj
    [] e.op = "set" -> Put(e.obj, SetAttrs(Cur(e.obj), e.v))
    [] e.op = "id" -> Put(e.obj, SetId(Cur(e.obj), e.id, e.x))
    [] e.op = "ext" -> Put(e.obj, SetAttr(Cur(e.obj), "IDE", IF e.x THEN "1" ELSE "0"))
    [] e.op = "bytes" -> Put(e.obj, SetBytes(e.obj, Cur(e.obj), e.b))
    [] e.op = "len" -> Put(e.obj, SetLen(Cur(e.obj), e.n))
    [] e.op = "save" -> /\ log' = [log EXCEPT ![e.kind] = Append(@, [t |-> e.t, m |-> Cur(e.obj)])] /\ UNCHANGED <<cfg, obj>>
    [] e.op = "tick" -> UNCHANGED <<cfg, obj, log>>
    [] e.op = "read" -> /\ e.ok /\ {e.groups[i].name : i \in DOMAIN e.groups} = DOMAIN log
                        /\ (\A i \in DOMAIN e.groups : Group(e.groups[i])) /\ UNCHANGED <<cfg, obj, log>>
    [] e.op = "can" -> /\ (\A i \in DOMAIN e.groups : Can(e.groups[i])) /\ UNCHANGED <<cfg, obj, log>>
    [] OTHER -> FALSE
TInit == cfg = <<>> /\ obj = [x \in {} |-> <<>>] /\ log = [x \in {} |-> <<>>] /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
