----------------------------- MODULE MdfTimeTrace -----------------------------
(* Recorded time conversions must be those of MdfTime.                         *)
EXTENDS MdfTime, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<tr, pc, sid>>
Ev == Traces[tr].ev
InDateRange(z, t) == LET y == Civil(Local(z, t).d).y IN y >= 1970 /\ y < 2070
InTimeRange(z, t) == LET d == Shift(t, z.min).d IN d >= Day1984 /\ d < Day1984 + 65536
Ok(e) ==
  CASE e.op = "cal" ->
         LET t == e.t  z == e.z  l == Local(z, t)  x == Shift(t, e.tz + e.dst) IN
         /\ e.isodate = IsoDate(t) /\ e.isotime = IsoTime(t, FALSE) /\ e.isotimems = IsoTime(t, TRUE)
         /\ e.iso = IsoBoth(t, FALSE) /\ e.isoms = IsoBoth(t, TRUE)
         /\ e.back = Denotes(t, IF Milli(t) = 0 THEN 0 ELSE 3)
         /\ e.dmy = Dmy(l) /\ e.hms = Hms(l, <<58>>)
         /\ e.udmy = Dmy(t) /\ e.uhms = Hms(t, <<58>>)
         /\ e.tdmy = Dmy(x) /\ e.thms = Hms(x, <<58>>)
         /\ e.liso = LocalIso(l)
         /\ (z.k = "fix" => e.local = l /\ e.utc = t /\ e.ltz = z.min)
         /\ (InDateRange(z, t) => e.cdate = CanDate(z, t) /\ e.cdback = MsOnly(t))
         /\ (InTimeRange(z, t) => e.ctime = CanTime(z, t) /\ e.ctback = MsOnly(t))
    [] e.op = "iso" -> /\ e.text = IsoText(e.t, e.min, e.fr, e.off, e.basic, e.sep)
                       /\ e.got = Denotes(e.t, e.fr)
    \* time stamps of a file: k is the kind of time stamp set, zone z is the one of the computer
    [] e.op = "hdr" ->
         LET t == e.t  z == e.z IN
         IF e.ver = 4 THEN
           /\ e.start = t /\ e.fh = t
           /\ e.type = (CASE e.k \in {"utc", "ns"} -> 0 [] e.k = "local" -> 1 [] OTHER -> 3)
           /\ e.tz = (IF e.k = "tz" THEN e.atz % 65536 ELSE 0)
           /\ e.dst = (IF e.k = "tz" THEN e.adst % 65536 ELSE 0)
           /\ e.fhtype = e.type /\ e.fhtz = e.tz /\ e.fhdst = e.dst
         ELSE
           \* MDF 3 holds the local date and time as text, the local winter time as number and the zone in hours
           LET l == CASE e.k \in {"utc", "ns"} -> Local(z, t) [] e.k = "local" -> t [] OTHER -> Shift(t, e.atz + e.adst)
               w == CASE e.k \in {"utc", "ns"} -> Shift(t, z.min) [] e.k = "local" -> t [] OTHER -> Shift(t, e.atz)
               h == IF e.k = "tz" THEN e.atz ELSE z.min
               hours == IF h < 0 THEN -((-h) \div 60) ELSE h \div 60 IN
           /\ e.date = Dmy(l) /\ e.time = Hms(l, <<58>>) /\ e.start = w
           /\ e.type = 2 /\ e.tz = (hours * 60) % 65536
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Ok(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
