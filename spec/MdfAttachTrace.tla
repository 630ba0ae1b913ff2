---------------------------- MODULE MdfAttachTrace ----------------------------
EXTENDS MdfAttach, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid, file
tvars == <<tr, pc, sid, file>>
Ev == Traces[tr].ev
Step(e) ==
  CASE e.op = "session" -> e.ok /\ file' = file \o e.atts
    [] e.op = "read" -> Holds(file, e.atts) /\ file' = file
    [] e.op = "sort" -> e.ok /\ Holds(file, e.atts) /\ file' = file     \* a sorted copy of the file
    [] OTHER -> FALSE
TInit == file = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
