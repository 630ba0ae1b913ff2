--------------------------- MODULE MdfWriterMC ---------------------------
(* Exhaustive check of the writer design within small constants.            *)
EXTENDS MdfWriter
CONSTANTS MaxT, MaxSamples, MaxBatches, Writers, Pres
VARIABLES now, nsave, nbatch
mvars == <<vars, now, nsave, nbatch>>
MCInit == Init /\ now = 0 /\ nsave = 0 /\ nbatch = 0
K == UNCHANGED <<now, nsave, nbatch>>
MCNext ==
  \/ \E w \in Writers, z \in BOOLEAN, per \in BOOLEAN, pre \in Pres :
        (nbatch < MaxBatches /\ (Len(ngrp) = 0 \/ w = opt.w) /\ Open([w |-> w, z |-> z, per |-> per, pre |-> pre])) /\ K
  \/ /\ nbatch < MaxBatches /\ \E gs \in {<<1>>, <<2>>, <<1, 1>>} : AddGroups(gs)
     /\ nbatch' = nbatch + 1 /\ UNCHANGED <<now, nsave>>
  \/ base < Len(ngrp) /\ (\A d \in (base+1)..Len(ngrp) : disk[d] = <<>>) /\ InitMeas /\ K
  \/ /\ nsave < MaxSamples
     /\ \E d \in (base+1)..Len(ngrp) : \E c \in 1..ngrp[d] : live /\ Save(d, c, now, <<nsave>>)
     /\ nsave' = nsave + 1 /\ UNCHANGED <<now, nbatch>>
  \/ now < MaxT /\ now' = now + 1 /\ UNCHANGED <<vars, nsave, nbatch>>
  \/ Tick /\ K
  \/ Start(now) /\ K
  \/ Stop(now) /\ K
  \/ Fin /\ K
  \/ Close /\ K
MCSpec == MCInit /\ [][MCNext]_mvars
========================================================================
