----------------------------- MODULE MdfComment -----------------------------
(* Structured comments of MDF 4 blocks.  A comment is described by the entries added to it, in the order of the calls;    *)
(* Norm gives the comment these calls denote: entries with a name are held in sets, a name in use refuses a later entry,  *)
(* a tree with a known name is merged into the one already there, plain lists keep their order.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Each(f(_), s) == [i \in DOMAIN s |-> f(s[i])]

(* attributes every entry can carry; a custom attribute is set once *)
FirstOf(s, key(_)) == {s[i] : i \in {j \in DOMAIN s : \A k \in 1..(j - 1) : key(s[k]) # key(s[j])}}
CustKey(c) == c.k
At(a) == [ci |-> a.ci, lang |-> a.lang, cust |-> FirstOf(a.cust, CustKey)]
Str(s) == [t |-> s.t, at |-> At(s)]
Strs(s) == Each(Str, s)

(* a hexadecimal number is stored as an integer *)
Prop(p) == [name |-> p.name, desc |-> p.desc, unit |-> p.unit, uref |-> p.uref, ro |-> p.ro, type |-> (IF p.type = 8 THEN 2 ELSE p.type), val |-> p.val, at |-> At(p)]
Enu(p) == [Prop(p) EXCEPT !.val = ""] @@ [vals |-> Strs(p.vals)]

Nothing == [p |-> {}, t |-> {}, l |-> {}, e |-> {}]
Names(m) == {x.name : x \in m.p \cup m.e} \cup {x.name : x \in m.t \cup m.l}
Taken(m, n) == n = "" \/ n \in Names(m)
RECURSIVE Merge(_, _)
MergeTrees(a, b) == {x \in a : \A y \in b : y.name # x.name}
                    \cup {y \in b : \A x \in a : y.name # x.name}
                    \cup {[x EXCEPT !.m = Merge(x.m, (CHOOSE y \in b : y.name = x.name).m)] : x \in {z \in a : \E y \in b : y.name = z.name}}
Merge(a, b) == [p |-> a.p \cup {x \in b.p : ~Taken(a, x.name)}, t |-> MergeTrees(a.t, b.t),
                l |-> a.l \cup {x \in b.l : ~Taken(a, x.name)}, e |-> a.e \cup {x \in b.e : ~Taken(a, x.name)}]
RECURSIVE List(_), Fold(_, _, _)
List(x) == [name |-> x.name, desc |-> x.desc, at |-> At(x), m |-> Fold(x.adds, 1, Nothing)]
Plain(x) == [name |-> x.name, desc |-> "", unit |-> "", uref |-> "", ro |-> FALSE, type |-> x.type, val |-> x.val, at |-> [ci |-> "0", lang |-> "", cust |-> {}]]
Put(m, a) ==
  CASE a.k = "p"  -> IF Taken(m, a.x.name) THEN m ELSE [m EXCEPT !.p = @ \cup {Prop(a.x)}]
    [] a.k = "hd" -> IF Taken(m, a.x.name) THEN m ELSE [m EXCEPT !.p = @ \cup {Plain(a.x)}]
    [] a.k = "l"  -> IF Taken(m, a.x.name) THEN m ELSE [m EXCEPT !.l = @ \cup {List(a.x)}]
    [] a.k = "e"  -> IF Taken(m, a.x.name) THEN m ELSE [m EXCEPT !.e = @ \cup {Enu(a.x)}]
    [] a.k = "t"  -> [m EXCEPT !.t = MergeTrees(@, {List(a.x)})]
Fold(s, i, m) == IF i > Len(s) THEN m ELSE Fold(s, i + 1, Put(m, s[i]))

NoAt == [ci |-> "0", lang |-> "", cust |-> {}]
Alt(n) == [def |-> n.def, names |-> Strs(n.names), disp |-> Strs(n.disp), vend |-> Strs(n.vend), desc |-> Strs(n.desc), at |-> At(n)]
NoAlt == [def |-> "", names |-> <<>>, disp |-> <<>>, vend |-> <<>>, desc |-> <<>>, at |-> NoAt]
Opt(s, f(_), none) == IF s = <<>> THEN none ELSE f(s[1])

Text(x) == x.t
Syn(s) == [s |-> Str(s), ver |-> s.ver, src |-> s.src]
Var(v) == [s |-> Str(v), cn |-> v.cn, cs |-> v.cs, cp |-> v.cp, gn |-> v.gn, gs |-> v.gs, gp |-> v.gp, idx |-> v.idx, raw |-> v.raw]
Formula(f) == [syn |-> Syn(f.syn), custom |-> {Syn(x) : x \in FirstOf(f.custom, Text)}, vars |-> {Var(x) : x \in FirstOf(f.vars, Text)}, at |-> At(f)]
NoFormula == [syn |-> [s |-> [t |-> "", at |-> NoAt], ver |-> "1.0", src |-> ""], custom |-> {}, vars |-> {}, at |-> NoAt]

Num(n) == [v |-> n.v, bc |-> n.bc, mask |-> n.mask, be |-> n.be, min |-> n.min, max |-> n.max, avg |-> n.avg, unit |-> n.unit, uref |-> n.uref, trig |-> n.trig, at |-> At(n)]
KeyStr(x) == [k |-> x.k, s |-> Str(x.s), off |-> x.s.off]
KeyNum(x) == [k |-> x.k, n |-> Num(x.n)]

(* harmonised objects *)
Nd(n) == [short |-> n.short, longs |-> Strs(n.longs), descs |-> Strs(n.descs)]
Id(x) == x.id
Short(x) == x.nd.short
Named(s) == SelectSeq(s, LAMBDA x : x.id # "")
Dim(d) == [id |-> d.id, nd |-> Nd(d.nd), ex |-> d.ex]
Group(g) == [nd |-> Nd(g.nd), cat |-> g.cat, refs |-> Rng(g.refs)]
Unit(u) == [id |-> u.id, nd |-> [Nd(u.nd) EXCEPT !.short = IF @ = "" THEN u.id ELSE @], disp |-> u.disp, f |-> u.f, o |-> u.o, dim |-> u.dim]
USpec(u) == [revs |-> u.revs, dims |-> {Dim(d) : d \in FirstOf(u.dims, Id)}, groups |-> {Group(g) : g \in FirstOf(u.groups, Short)}, units |-> {Unit(x) : x \in FirstOf(u.units, Id)}]
NoSpec == [revs |-> <<>>, dims |-> {}, groups |-> {}, units |-> {}]
Scale(s) == [s EXCEPT !.descs = Strs(@)]
Compu(m) == [m EXCEPT !.nd = Nd(@), !.scales = Each(Scale, @)]
NoCompu == [nd |-> [short |-> "", longs |-> <<>>, descs |-> <<>>], cat |-> 0, uref |-> "", phys |-> <<>>, intern |-> <<>>, scales |-> <<>>, df |-> "0", dt |-> ""]

ConstKey(c) == c.s.t
Const(c) == [s |-> Str(c.s), e |-> c.e]
Norm(x) == [tx |-> Str(x.tx), m |-> Fold(x.adds, 1, Nothing), names |-> Opt(x.names, Alt, NoAlt), path |-> Opt(x.path, Alt, NoAlt), bus |-> Opt(x.bus, Alt, NoAlt),
            formula |-> Opt(x.formula, Formula, NoFormula), strs |-> {KeyStr(s) : s \in Rng(x.strs)}, nums |-> {KeyNum(n) : n \in Rng(x.nums)}, ext |-> Each(At, x.ext),
            consts |-> {Const(c) : c \in FirstOf(x.consts, ConstKey)}, spec |-> Opt(x.spec, USpec, NoSpec), compu |-> Opt(x.compu, Compu, NoCompu),
            mono |-> (IF x.mono = <<>> THEN 6 ELSE x.mono[1])]

(* properties and enumerations at any depth, as looked up by name *)
RECURSIVE Props(_), Enus(_)
Props(m) == m.p \cup UNION {Props(x.m) : x \in m.t \cup m.l}
Enus(m) == m.e \cup UNION {Enus(x.m) : x \in m.t \cup m.l}
(* a name that occurs once is found wherever it lies; a name that does not occur is not found *)
Found(n, q, r) == /\ LET c == {p \in Props(n.m) : p.name = q} IN
                     /\ (c = {}) = (r.p = <<>>)
                     /\ c # {} => Prop(r.p[1]) \in c
                  /\ LET c == {p \in Enus(n.m) : p.name = q} IN
                     /\ (c = {}) = (r.e = <<>>)
                     /\ c # {} => Enu(r.e[1]) \in c
(* the named header entries *)
HdNames == <<"author", "department", "project", "subject", "Measurement.UUID", "Recorder.UUID", "Recorder.FileIndex">>
HdGet(n, i) == LET c == {p \in Props(n.m) : p.name = HdNames[i]} IN
               IF c = {} THEN (IF i = 7 THEN "-1" ELSE "") ELSE (CHOOSE p \in c : TRUE).val
=============================================================================
