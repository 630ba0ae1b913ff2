---------------------------- MODULE MdfSchedTrace -----------------------------
(* Recorded executions of the real writer under a chosen thread schedule: the  *)
(* calls and returns of every thread in real order, then what a reader finds.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Spc == INSTANCE MdfSched WITH Prod <- {}, MaxS <- 0, DG <- 1, Periodic <- FALSE, lock <- "", pp <- <<>>, called <- <<>>, returned <- <<>>, mp <- "", wp <- "", wd <- 0, wi <- <<>>, state <- "",
       stopf <- FALSE, live <- FALSE, queue <- <<>>, disk <- <<>>, lo <- <<>>, hi <- <<>>
VARIABLES tr, pc, sid, cfg, calls, rets, lo, hi, start, phase, hdr, any
tvars == <<tr, pc, sid, cfg, calls, rets, lo, hi, start, phase, hdr, any>>
Ev == Traces[tr].ev
\* calls[p]: the samples producer p has handed over in this measurement, as <<number, time>>
Zero(n) == [p \in 1..n |-> 0]
GroupOk(g, p) == /\ Spc!Outcome(g.n, lo[p], hi[p]) /\ Len(g.rows) = g.n
                 /\ \A i \in 1..g.n : g.rows[i] = calls[p][i].n /\ g.t[i] = calls[p][i].t - start
Step(e) ==
  CASE e.op = "cfg" -> /\ cfg' = e /\ calls' = [p \in 1..e.np |-> <<>>] /\ rets' = Zero(e.np) /\ lo' = Zero(e.np) /\ hi' = Zero(e.np) /\ phase' = "init"
                       /\ UNCHANGED <<start, hdr, any>>
    [] e.op = "call" -> /\ calls' = [calls EXCEPT ![e.p] = Append(@, [n |-> e.n, t |-> e.t])] /\ UNCHANGED <<cfg, rets, lo, hi, start, phase, hdr, any>>
    [] e.op = "ret" -> /\ rets' = [rets EXCEPT ![e.p] = @ + 1] /\ UNCHANGED <<cfg, calls, lo, hi, start, phase, hdr, any>>
    [] e.op = "start" -> start' = e.t /\ hdr' = (IF any THEN hdr ELSE e.t) /\ UNCHANGED <<cfg, calls, rets, lo, hi, phase, any>>
    [] e.op = "started" -> UNCHANGED <<cfg, calls, rets, lo, hi, start, phase, hdr, any>>
    [] e.op = "stop" -> lo' = rets /\ phase' = "stopping" /\ UNCHANGED <<cfg, calls, rets, hi, start, hdr, any>>
    [] e.op = "stopped" -> hi' = [p \in 1..cfg.np |-> Len(calls[p])] /\ phase' = "stopped" /\ UNCHANGED <<cfg, calls, rets, lo, start, hdr, any>>
    [] e.op = "fin" -> e.res /\ phase = "stopped" /\ UNCHANGED <<cfg, calls, rets, lo, hi, start, phase, hdr, any>>
    [] e.op = "read" -> /\ e.ok /\ Len(e.groups) = cfg.np /\ \A p \in 1..cfg.np : GroupOk(e.groups[p], p)
                        /\ e.start = hdr /\ any' = (any \/ \E p \in 1..cfg.np : e.groups[p].n > 0)
                        /\ \A p \in 1..cfg.np : rets[p] = Len(calls[p])
                        /\ UNCHANGED <<cfg, calls, rets, lo, hi, start, phase, hdr>>
    [] OTHER -> FALSE
TInit == cfg = <<>> /\ calls = <<>> /\ rets = <<>> /\ lo = <<>> /\ hi = <<>> /\ start = 0 /\ phase = "" /\ hdr = 0 /\ any = FALSE /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
