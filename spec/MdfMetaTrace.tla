----------------------------- MODULE MdfMetaTrace -----------------------------
EXTENDS MdfMeta, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<tr, pc, sid, objs>>
Ev == Traces[tr].ev
SameItems(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
SameRefs(a, b) == \A k \in DOMAIN b : b[k] = a[k]
Matches(list) ==
  LET x == Expected(TRUE)
  IN /\ Len(list) = Len(x)
     /\ \A j \in DOMAIN x : list[j].kind = x[j].kind /\ list[j].depth = x[j].depth
     /\ \A j \in DOMAIN x : SameItems(list[j].it, x[j].it) /\ SameRefs(x[j].refs, list[j].refs)
TextKeys == {"desc", "name", "unit", "dname", "author", "dept", "proj", "subj", "path", "group", "tool", "vendor", "version", "user", "formula", "measid", "recid"}
Fresh(kind, it) == \A k \in DOMAIN it \cap TextKeys : it[k] = "" \/ (kind = "cn" /\ k = "unit")
(* a new file has its header only; a file opened again lists what was stored, objects are then known by their position *)
Open(e) ==
  /\ e.ok
  /\ IF objs = <<>> THEN Len(e.list) = 1 /\ Fresh("hd", e.list[1].it) /\ objs' = <<[kind |-> "hd", par |-> 0, it |-> e.list[1].it, refs |-> NoRefs("hd")]>>
     ELSE /\ Matches(e.list)
          /\ LET ds == Dfs(1, 0)
                 at == [i \in DOMAIN objs |-> CHOOSE j \in DOMAIN ds : ds[j][1] = i]
                 x == Expected(TRUE)
             IN objs' = [j \in DOMAIN ds |-> [kind |-> x[j].kind, par |-> IF j = 1 THEN 0 ELSE at[objs[ds[j][1]].par], it |-> objs[ds[j][1]].it, refs |-> x[j].refs]]
Step(e) ==
  CASE e.op = "open" -> Open(e)
    [] e.op = "new" -> e.id = Len(objs) + 1 /\ Fresh(e.kind, e.it) /\ New(e.kind, e.par, e.it)
    [] e.op = "set" ->
         \* the number of bytes may follow from the data type where none was given
         /\ IF e.k = "dtype" /\ objs[e.id].it.bytes = "0" THEN objs' = [objs EXCEPT ![e.id].it = [After("cn", @, "dtype", e.v) EXCEPT !.bytes = e.it.bytes]]
            ELSE Set(e.id, e.k, e.v)
         /\ LET os == objs' IN SameItems(e.it, ViewIn(os, e.id))
    [] e.op = "ref" -> Point(e.id, e.k, e.v)
    [] e.op \in {"start", "fin"} -> e.ok /\ objs' = objs
    [] e.op \in {"save", "stop", "close"} -> objs' = objs
    [] e.op = "wlist" -> Matches(e.list) /\ objs' = objs
    [] e.op = "read" -> e.ok /\ Matches(e.list) /\ objs' = objs
    [] OTHER -> FALSE
TInit == objs = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
