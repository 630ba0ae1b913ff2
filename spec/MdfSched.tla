------------------------------- MODULE MdfSched -------------------------------
(* The threads of one measurement at lock granularity: producers saving to a   *)
(* channel group of their own, the controlling thread (start, stop) and the    *)
(* background writer.  One queue per data group, one lock for all queues.  The *)
(* background writer releases the lock while it writes one sample to the file. *)
(* Checked: every interleaving records each producer's samples once and in     *)
(* order, nothing that was saved before the stop is missing, nothing that was  *)
(* saved after it appears, and every call completes.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Prod, MaxS, DG, Periodic
VARIABLES lock, pp, called, returned,      \* lock holder, producer control points, saves called/returned
          mp, wp, wd, wi,                  \* controller, writer thread: control point, data group, sample in hand
          state, stopf, live, queue, disk, lo, hi
vars == <<lock, pp, called, returned, mp, wp, wd, wi, state, stopf, live, queue, disk, lo, hi>>
DgOf(p) == ((p - 1) % DG) + 1
None == <<0, 0>>
\* ---- what the file may finally hold of a producer that saved samples 1, 2, ... ----
Outcome(k, least, most) == least <= k /\ k <= most
Count(d, p) == Cardinality({i \in DOMAIN disk[d] : disk[d][i][1] = p})
InOrder(s, p) == LET own == SelectSeq(s, LAMBDA x : x[1] = p) IN \A i \in DOMAIN own : own[i][2] = i
------------------------------------------------------------------------------
Init == /\ lock = "free" /\ pp = [p \in Prod |-> "idle"] /\ called = [p \in Prod |-> 0] /\ returned = [p \in Prod |-> 0]
        /\ mp = "init" /\ wp = "wait" /\ wd = 0 /\ wi = None
        /\ state = "init" /\ stopf = FALSE /\ live = TRUE
        /\ queue = [d \in 1..DG |-> <<>>] /\ disk = [d \in 1..DG |-> <<>>]
        /\ lo = [p \in Prod |-> 0] /\ hi = [p \in Prod |-> 0]
\* ---- producers ----
PCall(p) == /\ pp[p] = "idle" /\ called[p] < MaxS /\ called' = [called EXCEPT ![p] = @ + 1]
            /\ pp' = [pp EXCEPT ![p] = "want"] /\ UNCHANGED <<lock, returned, mp, wp, wd, wi, state, stopf, live, queue, disk, lo, hi>>
PAdd(p) == /\ pp[p] = "want" /\ lock = "free"        \* the lock is taken, the queue changed and the lock released
           /\ queue' = IF live THEN [queue EXCEPT ![DgOf(p)] = Append(@, <<p, called[p]>>)] ELSE queue
           /\ pp' = [pp EXCEPT ![p] = "done"] /\ UNCHANGED <<lock, called, returned, mp, wp, wd, wi, state, stopf, live, disk, lo, hi>>
PRet(p) == /\ pp[p] = "done" /\ returned' = [returned EXCEPT ![p] = @ + 1]
           /\ pp' = [pp EXCEPT ![p] = "idle"] /\ UNCHANGED <<lock, called, mp, wp, wd, wi, state, stopf, live, queue, disk, lo, hi>>
\* ---- controller ----
MStep(a, b) == mp = a /\ mp' = b
MStart == MStep("init", "recalc") /\ UNCHANGED <<lock, pp, called, returned, wp, wd, wi, state, stopf, live, queue, disk, lo, hi>>
MRecalc == MStep("recalc", "run") /\ lock = "free" /\ state' = "meas" /\ UNCHANGED <<lock, pp, called, returned, wp, wd, wi, stopf, live, queue, disk, lo, hi>>
MStop == MStep("run", "join") /\ lo' = returned /\ stopf' = TRUE /\ UNCHANGED <<lock, pp, called, returned, wp, wd, wi, state, live, queue, disk, hi>>
\* the notification wakes the writer thread if it waits at this moment
MNotify == MStep("join", "joining") /\ wp' = (IF wp = "wait" THEN "woken" ELSE wp)
           /\ UNCHANGED <<lock, pp, called, returned, wd, wi, state, stopf, live, queue, disk, lo, hi>>
MJoined == MStep("joining", "clear") /\ wp = "exit" /\ UNCHANGED <<lock, pp, called, returned, wp, wd, wi, state, stopf, live, queue, disk, lo, hi>>
MClear == MStep("clear", "stopped") /\ lock = "free" /\ live' = FALSE /\ queue' = [d \in 1..DG |-> <<>>]
          /\ UNCHANGED <<lock, pp, called, returned, wp, wd, wi, state, stopf, disk, lo, hi>>
MDone == MStep("stopped", "fin") /\ hi' = called /\ UNCHANGED <<lock, pp, called, returned, wp, wd, wi, state, stopf, live, queue, disk, lo>>
\* ---- background writer ----
WStep(a, b) == wp = a /\ wp' = b
WKeep == UNCHANGED <<pp, called, returned, mp, state, stopf, live, lo, hi>>
WTimeout == WStep("wait", "woken") /\ WKeep /\ UNCHANGED <<lock, wd, wi, queue, disk>>
\* woken: take the lock and look at the stop flag (the wait goes on if notified for nothing)
WWake == /\ wp = "woken" /\ lock = "free" /\ WKeep /\ UNCHANGED <<wi, queue, disk>>
         /\ IF stopf THEN wp' = "last" /\ wd' = 0 /\ UNCHANGED lock
            ELSE IF state = "meas" /\ Periodic THEN wp' = "next" /\ wd' = 0 /\ lock' = "W"
            ELSE wp' = "wait" /\ UNCHANGED <<lock, wd>>
WLast == WStep("last", "lnext") /\ lock = "free" /\ lock' = "W" /\ wd' = 0 /\ WKeep /\ UNCHANGED <<wi, queue, disk>>
\* next data group: an empty queue is skipped, otherwise the lock is released while the file is opened
WNext(n, o, e) == /\ wp = n /\ WKeep /\ UNCHANGED <<wi, queue, disk>>
                  /\ IF wd = DG THEN wp' = e /\ lock' = "free" /\ UNCHANGED wd
                     ELSE /\ wd' = wd + 1
                          /\ IF queue[wd + 1] = <<>> THEN wp' = n /\ UNCHANGED lock ELSE wp' = o /\ lock' = "free"
WPop(o, n) == /\ wp = o /\ lock = "free" /\ WKeep
              /\ IF queue[wd] = <<>> THEN wp' = n /\ lock' = "W" /\ UNCHANGED <<wd, wi, queue, disk>>
                 ELSE /\ wi' = Head(queue[wd]) /\ queue' = [queue EXCEPT ![wd] = Tail(@)] /\ wp' = IF o = "open" THEN "write" ELSE "lwrite"
                      /\ UNCHANGED <<lock, wd, disk>>
WWrite(w, o) == WStep(w, o) /\ disk' = [disk EXCEPT ![wd] = Append(@, wi)] /\ wi' = None /\ WKeep /\ UNCHANGED <<lock, wd, queue>>
Writer == \/ WTimeout \/ WWake \/ WLast
          \/ WNext("next", "open", "wait") \/ WPop("open", "next") \/ WWrite("write", "open")
          \/ WNext("lnext", "lopen", "exit") \/ WPop("lopen", "lnext") \/ WWrite("lwrite", "lopen")
Main == MStart \/ MRecalc \/ MStop \/ MNotify \/ MJoined \/ MClear \/ MDone
Producer(p) == PCall(p) \/ PAdd(p) \/ PRet(p)
AllDone == mp = "fin" /\ \A p \in Prod : pp[p] = "idle" /\ called[p] = MaxS
Next == Main \/ Writer \/ (\E p \in Prod : Producer(p)) \/ (AllDone /\ UNCHANGED vars)
Fair == WF_vars(Main) /\ WF_vars(Writer) /\ (\A p \in Prod : WF_vars(PAdd(p) \/ PRet(p)) /\ WF_vars(PCall(p)))
        /\ SF_vars(MRecalc) /\ SF_vars(MClear) /\ (\A p \in Prod : SF_vars(PAdd(p))) /\ SF_vars(WWake) /\ SF_vars(WPop("open", "next")) /\ SF_vars(WPop("lopen", "lnext")) /\ SF_vars(WLast)
Spec == Init /\ [][Next]_vars
FSpec == Spec /\ Fair
OnceInOrder == \A p \in Prod : InOrder(disk[DgOf(p)], p)
Complete == mp = "fin" => \A p \in Prod : Outcome(Count(DgOf(p), p), lo[p], hi[p])
NothingStray == \A d \in 1..DG : \A i \in DOMAIN disk[d] : DgOf(disk[d][i][1]) = d
Terminates == <>AllDone
===============================================================================
