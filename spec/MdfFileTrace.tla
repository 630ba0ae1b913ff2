----------------------------- MODULE MdfFileTrace -----------------------------
(* A file is judged rule by rule; the step that cannot be taken names the rule *)
EXTENDS MdfFile, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<tr, pc, sid>>
Ev == Traces[tr].ev
F == Ev[1]
Rules == 6
Rule(k) == CASE k = 1 -> F.op = "file" /\ IdOk(F) [] k = 2 -> BlocksOk(F) [] k = 3 -> Apart(F) [] k = 4 -> LinksOk(F) [] k = 5 -> TreeOk(F) [] k = 6 -> GroupsOk(F)
TInit == tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Rules THEN UNCHANGED tvars ELSE Rule(pc) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
