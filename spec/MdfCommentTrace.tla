-------------------------- MODULE MdfCommentTrace --------------------------
(* Every look at a comment - the object, the block it was attached to, the file read back - shows what was added. *)
EXTENDS MdfComment, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<tr, pc, sid>>
Ev == Traces[tr].ev
Shows(x, v) == LET n == Norm(x) IN
               /\ Norm(v) = n
               /\ Len(v.adds) = Cardinality(n.m.p) + Cardinality(n.m.t) + Cardinality(n.m.l) + Cardinality(n.m.e)
               /\ \A i \in DOMAIN x.find : Found(n, x.find[i], v.find[i])
               /\ \A i \in DOMAIN v.get : v.get[i] = HdGet(n, i)
TInit == tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE /\ Ev[pc].op \in {"mem", "blk", "file"}
              /\ Shows(Ev[pc].x, Ev[pc].v)
              /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
