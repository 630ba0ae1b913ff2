-------------------------- MODULE MdfWriterEnum --------------------------
(* Every short single-group measurement, enumerated exhaustively (breadth    *)
(* first) and printed as a call history: all sample spacings, all placements *)
(* of background passes before and after the start, all start times and all  *)
(* pre-trigger times within the bounds.                                      *)
EXTENDS MdfWriter, Json, IOUtils
NB == atoi(IOEnv.NB)          \* samples before the start
NA == atoi(IOEnv.NA)          \* samples after the start
Gaps == 0..atoi(IOEnv.GAP)
Pre == 0..atoi(IOEnv.PRE)
VARIABLES now, hist, nb, na
evars == <<vars, now, hist, nb, na>>
Log(r) == hist' = Append(hist, r)
LastOp == hist[Len(hist)].op
EInit == /\ Init /\ now = 0 /\ nb = 0 /\ na = 0 /\ hist = <<>>
EOpen == /\ st = "none" /\ hist = <<>>
         /\ \E p \in Pre, z \in BOOLEAN : LET o == [w |-> "mdf4", z |-> z, per |-> TRUE, pre |-> p] IN
              Open(o) /\ Log([op |-> "open", w |-> "mdf4", z |-> z, per |-> TRUE, pre |-> p])
         /\ UNCHANGED <<now, nb, na>>
EGroups == st = "create" /\ LastOp = "open" /\ AddGroups(<<1>>) /\ Log([op |-> "groups", gs |-> <<1>>]) /\ UNCHANGED <<now, nb, na>>
EInitM == LastOp = "groups" /\ InitMeas /\ Log([op |-> "init"]) /\ UNCHANGED <<now, nb, na>>
ESave == /\ live /\ (IF st = "init" THEN nb < NB ELSE na < NA)
         /\ \E g \in (IF nb + na = 0 THEN {0} ELSE Gaps) :
              /\ Save(1, 1, now + g, <<>>) /\ Log([op |-> "save", d |-> 1, c |-> 1, t |-> now + g]) /\ now' = now + g
         /\ IF st = "init" THEN nb' = nb + 1 /\ UNCHANGED na ELSE na' = na + 1 /\ UNCHANGED nb
ETick == live /\ LastOp \in {"save", "start"} /\ Tick /\ Log([op |-> "tick"]) /\ UNCHANGED <<now, nb, na>>
EStart == /\ st = "init"
          /\ \E g \in Gaps : Start(now + g) /\ Log([op |-> "start", t |-> now + g]) /\ now' = now + g
          /\ UNCHANGED <<nb, na>>
EStop == /\ st = "meas" /\ na = NA /\ Stop(now) /\ Log([op |-> "stop", t |-> now]) /\ UNCHANGED <<now, nb, na>>
EFin == LastOp = "stop" /\ Fin /\ Log([op |-> "fin"]) /\ UNCHANGED <<now, nb, na>>
EDone == /\ LastOp = "fin" /\ PrintT("HIST " \o ToJson(hist \o <<[op |-> "close"], [op |-> "read"]>>))
         /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<vars, now, nb, na>>
ENext == EOpen \/ (hist # <<>> /\ (EGroups \/ EInitM \/ ESave \/ ETick \/ EStart \/ EStop \/ EFin \/ EDone))
ESpec == EInit /\ [][ENext]_evars
========================================================================
