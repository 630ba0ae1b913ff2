--------------------------- MODULE MdfScaleTrace ---------------------------
EXTENDS MdfScale, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<cfg, tr, pc, sid>>
Ev == Traces[tr].ev
Step(e) ==
  CASE e.op = "made" -> e.ok /\ cfg' = e.cfg
    [] e.op = "open" -> /\ e.ok /\ UNCHANGED cfg
                        /\ Len(e.shape) = cfg.D
                        /\ \A d \in 1..cfg.D :
                             /\ Len(e.shape[d]) = cfg.G
                             /\ \A g \in 1..cfg.G : /\ e.shape[d][g].n = Nof(cfg, d - 1, g - 1)
                                                    /\ e.shape[d][g].c = cfg.C
                                                    /\ e.shape[d][g].name = IF cfg.named THEN "g" \o ToString(d - 1) \o "_" \o ToString(g - 1) ELSE ""   \* MDF 3 groups have no name
    [] e.op = "read" -> /\ e.ok /\ UNCHANGED cfg
                        /\ Len(e.got) = Len(e.pick)
                        /\ \A i \in DOMAIN e.got :
                             LET g == e.pick[i][1]
                                 c == e.pick[i][2]
                                 n == Nof(cfg, e.d, g)
                                 ks == IF "lo" \in DOMAIN e THEN Some(n, e.lo, e.hi) ELSE Some(n, 1, n)
                             IN e.got[i] = [g |-> g, c |-> c, n |-> n, good |-> Good(cfg, e.d, g, c, ks), sum |-> Sum(cfg, e.d, g, c, ks)]
    [] OTHER -> FALSE
TInit == cfg = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
