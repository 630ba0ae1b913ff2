---------------------------- MODULE MdfWriter ----------------------------
(* The writer life cycle of mdflib: sessions on one file, the per-data-group *)
(* sample queues, the background writer, pre-trigger trimming, start/stop,   *)
(* finalisation and appending.  One action per public call or background     *)
(* pass (the code's critical sections).  Times are abstract ticks.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == -1000000000          \* "not set" for times

VARIABLES
  st,      \* reported writer state: "none" "create" "init" "meas" "stop" "final"
  opt,     \* options of the open writer: [w, z, per, pre]
  ngrp,    \* number of channel groups of every data group in the file, in order
  base,    \* data groups present before the current batch of groups
  live,    \* TRUE while samples are accepted (queues exist, background writer runs)
  act,     \* data groups that have a queue
  queue,   \* data group -> sequence of samples accepted, not yet on file
  disk,    \* data group -> sequence of samples on file
  start,   \* start time of the running measurement or None
  hdr,     \* start time in the header or None
  acc      \* ghost: data group -> samples accepted in its measurement

vars == <<st, opt, ngrp, base, live, act, queue, disk, start, hdr, acc>>

\* a sample: [c |-> channel group, t |-> time saved, rel |-> master value or None, v |-> values]
Rel(t, s) == IF s = None THEN None ELSE t - s

------------------------------------------------------------------------
(* Pre-trigger trimming: the queue keeps at least one sample; older samples  *)
(* are dropped while the second one already covers the window.               *)
RECURSIVE Trim(_, _, _)
Trim(q, s, pre) ==
  IF Len(q) <= 1 THEN q
  ELSE IF s # None
       THEN IF q[2].t >= s - pre THEN q ELSE Trim(Tail(q), s, pre)
       ELSE IF q[Len(q)].t - q[2].t <= pre THEN q ELSE Trim(Tail(q), s, pre)

TrimQ(q) == IF opt.w = "conv" THEN q ELSE Trim(q, start, opt.pre)

\* data groups that hold no sample yet take part in the measurement
Activated == { d \in 1..Len(ngrp) : disk[d] = <<>> }
\* several such groups at the end force compressed storage for the periodic MDF 4 writers
Trailing == { d \in act : \A e \in d..Len(ngrp) : e \in act }
ZEff == \/ opt.z
        \/ /\ opt.w # "mdf3" /\ opt.per /\ Cardinality(Trailing) > 1
\* does a periodic background pass move samples to the file?
Moves == IF opt.w = "mdf3" THEN Cardinality(act) = 1 ELSE ~ZEff

Flush(d) == disk[d] \o TrimQ(queue[d])
------------------------------------------------------------------------
Init == /\ st = "none" /\ opt = [w |-> "mdf4", z |-> FALSE, per |-> TRUE, pre |-> 0]
        /\ ngrp = <<>> /\ base = 0 /\ live = FALSE /\ act = {}
        /\ queue = <<>> /\ disk = <<>> /\ start = None /\ hdr = None /\ acc = <<>>

Open(o) == /\ st = "none"
           /\ opt' = o
           /\ st' = IF Len(ngrp) = 0 THEN "create" ELSE "final"
           /\ start' = None
           /\ UNCHANGED <<ngrp, base, live, act, queue, disk, hdr, acc>>

\* add data groups; gs[i] is the number of channel groups of the i:th
AddGroups(gs) == /\ st \in {"create", "final"}
                 /\ base' = Len(ngrp)
                 /\ ngrp' = ngrp \o gs
                 /\ queue' = queue \o [i \in DOMAIN gs |-> <<>>]
                 /\ disk' = disk \o [i \in DOMAIN gs |-> <<>>]
                 /\ acc' = acc \o [i \in DOMAIN gs |-> <<>>]
                 /\ UNCHANGED <<st, opt, live, act, start, hdr>>

InitMeas == /\ st \in {"create", "final"}
            /\ st' = "init" /\ live' = TRUE /\ start' = None
            /\ act' = Activated
            /\ UNCHANGED <<opt, ngrp, base, queue, disk, hdr, acc>>

\* outside a running session the call has no effect
Save(d, c, t, v) ==
  IF live /\ d \in act
  THEN LET s == [c |-> c, t |-> t, rel |-> Rel(t, start), v |-> v] IN
       /\ queue' = [queue EXCEPT ![d] = Append(@, s)]
       /\ acc' = [acc EXCEPT ![d] = Append(@, [s EXCEPT !.rel = None])]
       /\ UNCHANGED <<st, opt, ngrp, base, live, act, disk, start, hdr>>
  ELSE UNCHANGED vars

\* one pass of the background writer
Tick == /\ live
        /\ IF st = "init"
           THEN /\ queue' = [d \in DOMAIN queue |-> IF d \in act THEN TrimQ(queue[d]) ELSE queue[d]]
                /\ UNCHANGED disk
           ELSE IF st = "meas" /\ opt.per
           THEN IF Moves
                THEN /\ disk' = [d \in DOMAIN disk |-> IF d \in act THEN Flush(d) ELSE disk[d]]
                     /\ queue' = [d \in DOMAIN queue |-> IF d \in act THEN <<>> ELSE queue[d]]
                ELSE /\ queue' = [d \in DOMAIN queue |-> IF d \in act /\ opt.w # "mdf3" THEN TrimQ(queue[d]) ELSE queue[d]]
                     /\ UNCHANGED disk
           ELSE UNCHANGED <<queue, disk>>
        /\ UNCHANGED <<st, opt, ngrp, base, live, act, start, hdr, acc>>

AnySample == \E d \in DOMAIN disk : Len(disk[d]) > 0

Start(t) == /\ live /\ st \in {"init"}
            /\ st' = "meas" /\ start' = t
            /\ queue' = [d \in DOMAIN queue |-> [i \in DOMAIN queue[d] |-> [queue[d][i] EXCEPT !.rel = queue[d][i].t - t]]]
            /\ hdr' = IF AnySample THEN hdr ELSE t
            /\ UNCHANGED <<opt, ngrp, base, live, act, disk, acc>>

\* a measurement that was never started may be stopped too; stopping again only changes the state
Stop(t) == IF live
           THEN
           /\ st \in {"init", "meas"}
           /\ disk' = [d \in DOMAIN disk |-> IF d \in act THEN Flush(d) ELSE disk[d]]
           /\ queue' = [d \in DOMAIN queue |-> <<>>]
           /\ live' = FALSE /\ act' = {} /\ st' = "stop"
           /\ UNCHANGED <<opt, ngrp, base, start, hdr, acc>>
           ELSE
           /\ st \in {"stop", "final"} /\ st' = "stop"
           /\ UNCHANGED <<opt, ngrp, base, live, act, queue, disk, start, hdr, acc>>

Fin == /\ st \in {"stop", "final"} /\ st' = "final"
       /\ UNCHANGED <<opt, ngrp, base, live, act, queue, disk, start, hdr, acc>>

Close == /\ st = "final" /\ st' = "none"
         /\ UNCHANGED <<opt, ngrp, base, live, act, queue, disk, start, hdr, acc>>
------------------------------------------------------------------------
(* Properties of the design *)
\* everything in the window, plus at most the latest sample before it
Window(a, s, pre) ==
  LET before == { i \in DOMAIN a : a[i].t < s - pre } IN
  IF before = {} THEN a
  ELSE LET m == CHOOSE i \in before : \A j \in before : j <= i IN SubSeq(a, m, Len(a))

TimeOrdered(a) == \A i \in 1..(Len(a) - 1) : a[i].t <= a[i+1].t
Strip(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.rel = None]]

\* nothing lost, repeated or reordered; pre-trigger window exact and independent of passes
WindowExact ==
  (st \in {"meas", "stop"} /\ start # None) =>
    \A d \in (base + 1)..Len(ngrp) :
      IF opt.w = "conv" THEN Strip(disk[d] \o queue[d]) = acc[d]
      ELSE LET final == disk[d] \o TrimQ(queue[d]) IN
           Strip(final) = Window(acc[d], start, opt.pre)
\* before the start nothing of the current batch is on file
NothingEarly == st = "init" => \A d \in (base + 1)..Len(ngrp) : disk[d] = <<>>
\* master values are relative to the start
Relative == (start # None /\ st \in {"meas", "stop", "final"}) =>
    \A d \in (base + 1)..Len(ngrp) : \A i \in DOMAIN disk[d] : disk[d][i].rel = disk[d][i].t - start
QueueOnlyLive == ~live => \A d \in DOMAIN queue : queue[d] = <<>>
AppendOnly == [][\A d \in DOMAIN disk : IsPrefix(disk[d], disk'[d])]_vars
\* sealed: groups of earlier batches that hold samples everywhere never change
Sealed == [][\A d \in 1..base : d \notin act => disk'[d] = disk[d]]_vars
HeaderOnce == [][AnySample => hdr' = hdr]_vars
GroupsOnlyGrow == [][IsPrefix(ngrp, ngrp')]_vars
========================================================================
