-------------------------- MODULE MdfWriterGen --------------------------
(* Random behaviours of MdfWriter, printed as call histories (tlc -simulate). *)
EXTENDS MdfWriter, Json, IOUtils
Env(k, dflt) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE dflt
\* ---- what to generate (environment)
W      == Env("GW", "mdf4")             \* writer kind
MaxOps == atoi(Env("GOPS", "25"))       \* calls per session
MaxSes == atoi(Env("GSES", "1"))        \* sessions
PreMax == atoi(Env("GPRE", "0"))        \* largest pre-trigger time
Ordered == Env("GORD", "0") = "1"       \* samples in time order
Snap   == Env("GSNAP", "0") = "1"       \* interruption points
Wild   == Env("GWILD", "0") = "1"       \* out-of-order calls
Shapes == IF Env("GSHAPE", "any") = "one" THEN {<<1>>} ELSE {<<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 3, 1>>, <<1, 1, 1, 1>>}
VARIABLES now, left, ses, hist
gvars == <<vars, now, left, ses, hist>>
R(S) == RandomElement(S)
Log(r) == hist' = Append(hist, r)
K == UNCHANGED <<now, left, ses>>
LastOp == IF hist = <<>> THEN [op |-> "-"] ELSE hist[Len(hist)]
\* the present session was finalised (only samples offered since)
Quiet == {"save", "tick"}
LastCall == IF hist = <<>> \/ \A i \in DOMAIN hist : hist[i].op \in Quiet THEN "-"
            ELSE hist[CHOOSE i \in DOMAIN hist : hist[i].op \notin Quiet /\ \A j \in (i+1)..Len(hist) : hist[j].op \in Quiet].op
Finned == LastCall = "fin"
Owned == LastCall \in {"fin", "stop"}
GInit == Init /\ now = 0 /\ left = 0 /\ ses = 0 /\ hist = <<>>

DoOpen == /\ ses < MaxSes
          /\ \E z \in {R(BOOLEAN)}, per \in {R(1..3) > 1}, pre \in {R(0..PreMax)} :
             /\ Open([w |-> W, z |-> z, per |-> per, pre |-> pre])
             /\ Log([op |-> "open", w |-> W, z |-> z, per |-> per, pre |-> pre])
          /\ ses' = ses + 1 /\ UNCHANGED <<now, left>>
DoGroups == /\ st \in {"create", "final"} /\ left = 0 /\ LastOp.op = "open"
            /\ \E gs \in {R(Shapes)}, n \in {R(2..MaxOps)} :
                 AddGroups(gs) /\ Log([op |-> "groups", gs |-> gs]) /\ left' = n
            /\ UNCHANGED <<now, ses>>
DoInit == /\ left > 0 /\ st \in {"create", "final"} /\ LastCall = "groups"
          /\ ~Finned /\ InitMeas /\ Log([op |-> "init"]) /\ K
DoSave == /\ left > 0 /\ (live \/ (Wild /\ base < Len(ngrp) /\ st # "none" /\ LastOp.op # "open"))
          /\ \E d \in {R((base + 1)..Len(ngrp))}, back \in {R({0, 1, 2, 3})}, gap \in {R({0, 1, 2, 3, 7})} :
             \E c \in {R(1..ngrp[d])} :
             LET t == IF Ordered \/ st = "init" \/ back < 2 \/ start = None \/ now - back < start THEN now ELSE now - back IN
             /\ Save(d, c, t, <<>>)
             /\ Log([op |-> "save", d |-> d - base, c |-> c, t |-> t])
             /\ now' = now + gap /\ left' = left - 1 /\ UNCHANGED ses
DoTick == /\ live /\ left > 0 /\ LastOp.op # "tick" /\ R(1..3) > 1 /\ Tick /\ Log([op |-> "tick"]) /\ left' = left - 1 /\ UNCHANGED <<now, ses>>
DoStart == /\ st = "init" /\ (left < 2 \/ R(1..4) = 1)
           /\ \E dt \in {R({0, 1, 2, 5})}, more \in {R({0, 2, 5})} :
              /\ Start(now + dt) /\ Log([op |-> "start", t |-> now + dt])
              /\ now' = now + dt
              /\ left' = left + more /\ UNCHANGED ses
DoStop == /\ st = "meas" /\ (left < 2 \/ R(1..8) = 1)
          /\ \E dt \in {R({0, 1, 50})} : Stop(now + dt) /\ Log([op |-> "stop", t |-> now + dt])
          /\ left' = (IF Wild THEN 3 ELSE 0) /\ UNCHANGED <<now, ses>>
DoStop2 == /\ Wild /\ left > 0 /\ st \in {"stop", "final"} /\ Owned /\ R(1..3) = 1 /\ Stop(now) /\ Log([op |-> "stop", t |-> now]) /\ left' = left - 1 /\ UNCHANGED <<now, ses>>
DoStop3 == /\ Wild /\ st = "init" /\ R(1..6) = 1 /\ Stop(now) /\ Log([op |-> "stop", t |-> now]) /\ K
DoFin2 == /\ Wild /\ left > 0 /\ st = "final" /\ Finned /\ R(1..3) = 1 /\ Fin /\ Log([op |-> "fin"]) /\ left' = left - 1 /\ UNCHANGED <<now, ses>>
DoTick2 == /\ Wild /\ left > 0 /\ ~live /\ st \in {"create", "stop", "final"} /\ LastOp.op \notin {"tick", "open"} /\ UNCHANGED vars /\ Log([op |-> "tick"]) /\ left' = left - 1 /\ UNCHANGED <<now, ses>>
DoFin == /\ st = "stop" /\ Fin /\ Log([op |-> "fin"]) /\ UNCHANGED <<now, ses>> /\ left' = IF Wild THEN left ELSE 0
DoRead == /\ st = "none" /\ Len(hist) > 0 /\ LastOp.op = "close" /\ UNCHANGED vars /\ Log([op |-> "read"]) /\ K
DoClose == /\ st = "final" /\ Len(hist) > 0 /\ Finned
           /\ Close /\ Log([op |-> "close"]) /\ left' = 0 /\ UNCHANGED <<now, ses>>
DoSnap == /\ Snap /\ st \in {"init", "meas", "stop"} /\ LastOp.op # "snap" /\ R(1..2) = 1 /\ UNCHANGED vars /\ Log([op |-> "snap"]) /\ K
Done == /\ ses = MaxSes /\ Len(hist) > 0 /\ LastOp.op = "read"
        /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = <<[op |-> "done"]>> /\ UNCHANGED vars /\ K
GNext == \/ (ses < MaxSes /\ (ses = 0 \/ LastOp.op = "read") /\ DoOpen)
         \/ DoGroups \/ DoInit \/ DoSave \/ DoTick \/ DoStart \/ DoStop \/ DoFin \/ DoStop2 \/ DoStop3 \/ DoFin2 \/ DoTick2 \/ DoRead \/ DoClose \/ DoSnap \/ Done
GSpec == GInit /\ [][GNext]_gvars
========================================================================
