---------------------------- MODULE MdfSortTrace ----------------------------
EXTENDS MdfSort, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid,
          old,     \* an MDF 3 file, which the task refuses
          head,    \* header and history of the file to sort
          held     \* what a reader sees of the file to sort: sequence of data groups
tvars == <<rvars, tr, pc, sid, held, head, old>>
Ev == Traces[tr].ev

SameGroup(a, b) == /\ a.n = b.n /\ a.name = b.name /\ a.desc = b.desc
                   /\ a.chs = b.chs
(* groups with records of their own *)
Own(v) == LET of(d) == SelectSeq(v[d], LAMBDA g : ~g.vlsd) IN Flat([d \in DOMAIN v |-> of(d)])
Kept(v, skip) == SelectSeq(Own(v), LAMBDA g : ~(skip /\ g.n = 0))
(* the task may add to the history, nothing is lost or reordered *)
SameHead(a, b) == /\ [a EXCEPT !.hist = <<>>] = [b EXCEPT !.hist = <<>>]
                  /\ Len(a.hist) >= Len(b.hist) /\ SubSeq(a.hist, 1, Len(b.hist)) = b.hist
Sorted(v) == \A d \in DOMAIN v : Len(SelectSeq(v[d], LAMBDA g : ~g.vlsd)) = 1

Step(e) ==
  CASE e.op = "file" -> Open(e.dgs) /\ old' = e.m3 /\ UNCHANGED <<held, head>>
    [] e.op = "view" -> /\ e.ok
                        /\ LET os == Owners(FALSE)
                               gs == Own(e.dgs) IN
                           /\ Len(gs) = Len(os)
                           /\ \A i \in DOMAIN os :
                                LET d == os[i][1]
                                    g == os[i][2] IN
                                /\ gs[i].n = Total(d, g)
                                /\ Len(gs[i].chs) = Len(file[d].cgs[g].chs)
                                /\ \A c \in DOMAIN gs[i].chs : gs[i].chs[c].vals = Column(d, g, c)
                        /\ held' = e.dgs /\ head' = e.hd /\ UNCHANGED <<rvars, old>>
    [] e.op = "sort" -> /\ e.kept /\ e.clean
                        /\ e.ok = ~((e.there /\ ~e.over) \/ old)
                        /\ UNCHANGED <<rvars, old, head>>
                        /\ IF ~e.ok THEN e.left = (IF e.there THEN 1 ELSE 0) /\ UNCHANGED held
                           ELSE /\ e.read /\ SameHead(e.hd, head)
                                /\ Sorted(e.dgs)
                                /\ LET want == Kept(held, e.skip)
                                       got == Own(e.dgs) IN
                                   /\ Len(got) = Len(want)
                                   /\ \A i \in DOMAIN want : SameGroup(got[i], want[i])
                                /\ held' = (IF e.chain THEN e.dgs ELSE held)
    [] OTHER -> FALSE

TInit == file = <<>> /\ content = <<>> /\ watch = <<>> /\ seen = <<>> /\ held = <<>> /\ head = <<>> /\ old = FALSE /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
