---------------------------- MODULE MdfCsvTrace -----------------------------
EXTENDS MdfCsv, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<cvars, tr, pc, sid>>
Ev == Traces[tr].ev
In(x, s) == \E i \in DOMAIN s : s[i] = x

(* the contents of directory k after an export; old = what an earlier export left there was replaced by the driver *)
Left(e, k, files) ==
  LET n == Len(held)      \* directory k is that of file k, directory n + k the one file k is exported to on request
      w == IF k <= n THEN (IF ~e.out /\ In(k, e.which) THEN k ELSE 0) ELSE (IF e.out /\ In(k - n, e.which) THEN k - n ELSE 0)
      tabs == IF w = 0 THEN <<>> ELSE [i \in DOMAIN Exported(held[w]) |-> Table(Exported(held[w])[i])]
      fresh == w # 0 /\ (dirs[k] = 0 \/ e.force)
  IN IF fresh
     THEN LET ds == [i \in DOMAIN files |-> Denotes(files[i])]
          IN /\ Len(files) = Len(tabs)
             /\ \A i \in DOMAIN ds : ~ds[i].bad
             /\ Same([i \in DOMAIN ds |-> ds[i].rows], tabs)
     ELSE Len(files) = dirs[k] /\ \A i \in DOMAIN files : files[i] = Old

Step(e) ==
  CASE e.op = "files" -> held' = e.views /\ dirs' = [k \in 1..(2 * Len(e.views)) |-> 0]
    [] e.op = "csv" -> /\ e.rc = 0 /\ e.clean
                       /\ \A k \in DOMAIN dirs : Left(e, k, e.dirs[k])
                       /\ dirs' = [k \in DOMAIN dirs |-> Len(e.dirs[k])]
                       /\ UNCHANGED held
    [] OTHER -> FALSE

TInit == held = <<>> /\ dirs = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
