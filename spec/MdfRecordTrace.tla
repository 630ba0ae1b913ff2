--------------------------- MODULE MdfRecordTrace ---------------------------
(* Recorded executions of the record coding must be behaviours of MdfRecord. *)
EXTENDS MdfRecord, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pc, sid
tvars == <<vars, tr, pc, sid>>
Ev == Traces[tr].ev

(* the layout keeps what was declared *)
Declared(e) ==
  /\ Len(e.ch) = Len(e.decl)
  /\ \A c \in DOMAIN e.ch :
       /\ e.ch[c].bits = 8 * e.decl[c].by
       /\ e.ch[c].inv = (e.m4 /\ e.decl[c].inv) /\ e.ch[c].all = (e.m4 /\ e.decl[c].all)
       /\ e.ch[c].sh = e.decl[c].shape
       /\ e.ch[c].n = e.decl[c].n
Valid(x, c, i) == ~lay[c].all /\ ValidIn(x, c, i)
\* observed values and validity of every element of every channel
Observed(g, r, x) ==
  /\ Len(g) = Len(lay)
  /\ \A c \in DOMAIN lay : /\ Len(g[c]) = lay[c].n
                           /\ \A i \in DOMAIN g[c] : /\ g[c][i].ok = Valid(x, c, i - 1)
                                                     /\ \/ g[c][i].v = Value(r, lay[c], i - 1)
                                                        \/ lay[c].dt = "d" /\ r[lay[c].byte + 6] = 0   \* no date yet
\* the bytes a value takes in a channel
EncOf(ch, e) == IF ch.dt = "f" /\ ch.bits = 32 THEN e.enc ELSE IF ch.dt \in {"t", "l", "w"} THEN TextBytes(e.v, ch.dt, ch.be) ELSE e.v
GoodEnc(ch, e) == ch.dt = "f" /\ ch.bits = 32 => Widen(e.enc, 23, 8) = e.v
RECURSIVE StoreAll(_, _, _, _)
StoreAll(r, ch, vs, i) == IF i > Len(vs) THEN r ELSE StoreAll(Store(r, ch, i - 1, EncOf(ch, vs[i])), ch, vs, i + 1)
\* the position of a number put at a DBC start bit (big endian: position of the most significant bit)
DbcCh(e) == [dt |-> "u", be |-> e.be, bits |-> e.len, n |-> 1, byte |-> e.s \div 8,
             bit |-> IF e.be THEN ((e.s % 8) + 1 + 8 * e.len - e.len) % 8 ELSE e.s % 8]

Step(e) ==
  CASE e.op = "layout" -> LayoutOk(e.ch, e.n) /\ Declared(e) /\ Configure(e.ch, e.n)
    [] e.op = "set" -> /\ GoodEnc(lay[e.c], e)
                       /\ Set(e.c, e.i, EncOf(lay[e.c], e), e.ok)
                       /\ e.rec = rec' /\ Observed(e.g, rec', inv')
    [] e.op = "setall" -> /\ \A i \in DOMAIN e.vs : GoodEnc(lay[e.c], e.vs[i])
                          /\ rec' = StoreAll(rec, lay[e.c], e.vs, 1)
                          /\ inv' = inv \ {<<e.c, i - 1>> : i \in DOMAIN e.vs}
                          /\ UNCHANGED <<lay, saved>>
                          /\ e.rec = rec' /\ Observed(e.g, rec', inv')
    [] e.op = "save" -> Save
    [] e.op = "read" -> /\ e.rok
                        /\ Len(e.smp) = Len(saved)
                        /\ \A k \in DOMAIN saved : Observed(e.smp[k].g, saved[k].r, saved[k].x)
                        /\ e.dims = [c \in DOMAIN lay |-> lay[c].sh]
                        /\ \A c \in DOMAIN lay : Ev[1].m4 =>
                             /\ e.arr[c].at = (IF lay[c].sh = <<>> THEN -1 ELSE Ev[1].decl[c].at)
                             /\ e.arr[c].axis = Ev[1].decl[c].ax
                        /\ UNCHANGED vars
    [] e.op = "raw" -> e.res /\ e.v = Value(e.rec, e.ch, e.i) /\ UNCHANGED vars
    [] e.op = "toraw" -> e.out = StoreNum(e.rec, DbcCh(e), 0, e.v) /\ UNCHANGED vars
    [] OTHER -> FALSE

TInit == lay = <<>> /\ rec = <<>> /\ inv = {} /\ saved = <<>> /\ tr \in DOMAIN Traces /\ pc = 1 /\ sid = Traces[tr].id
TNext == IF pc > Len(Ev) THEN UNCHANGED tvars
         ELSE Step(Ev[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<tr, sid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
