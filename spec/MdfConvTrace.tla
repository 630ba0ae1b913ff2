---------------------------- MODULE MdfConvTrace ----------------------------
(* Engineering values observed in files must be the ones of their rules.     *)
EXTENDS MdfConv, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid, chs
tvars == <<tr, pc, sid, chs>>
Ev == Traces[tr].ev
\* an observed value o against the result r
Agrees(o, r) == CASE r.k = "num" -> o.ok /\ Close(o.e, r.n, r.d) /\ o.okt /\ Close(o.et, r.n, r.d)
                  [] r.k = "txt" -> o.okt /\ o.t = r.t
                  [] OTHER -> ~o.ok /\ ~o.okt
Result(c, x) == IF c.kind = "t" THEN ConvT(c.cc, x) ELSE Conv(c.cc, c.kind # "f", x)
Step(e) ==
  CASE e.op = "conf" -> chs' = e.chs
    [] e.op = "read" -> /\ e.ok /\ Len(e.cols) = Len(chs)
                        /\ \A c \in DOMAIN chs :
                             /\ Len(e.cols[c]) = Len(chs[c].raw)
                             /\ \A k \in DOMAIN e.cols[c] : Agrees(e.cols[c][k], Result(chs[c], chs[c].raw[k]))
                        /\ chs' = chs
    [] e.op = "rule" -> /\ Len(e.rules) = Len(chs)
                        /\ \A c \in DOMAIN chs : LET r == e.rules[c] IN
                             /\ r.ty = chs[c].code /\ r.p = chs[c].cc.p /\ r.unit = chs[c].unit
                             /\ r.refs = [i \in DOMAIN chs[c].cc.refs |-> chs[c].cc.refs[i].t]
                        /\ chs' = chs
    [] OTHER -> FALSE
TInit == chs = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
