----------------------------- MODULE MdfZipTrace ------------------------------
(* Recorded deflate / inflate / transpose calls.  Contents are byte strings,   *)
(* or for long ones digests [n, c] (size and check sums of 512 byte pieces).   *)
EXTENDS MdfZip, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<tr, pc, sid>>
Ev == Traces[tr].ev
Ok(e) ==
  CASE e.op = "def" -> (e.size > 0 \/ e.ok) => (e.ok /\ e.ref = e.content)
    [] e.op = "inf" -> Delivers(e.content, e.size, e.state, e.room, e.ok, e.out) /\ ~e.over
    [] e.op = "tp" -> e.t = Transpose(e.x, e.w) /\ e.i = InvTranspose(e.x, e.w) /\ e.ti = e.x
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Ok(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
