------------------------------- MODULE MdfMeta --------------------------------
(* Descriptive information of a file: a tree of objects with ordered children, *)
(* each carrying items and references to other objects.  Objects are created   *)
(* and items set one at a time; writing and reading change nothing.            *)
EXTENDS Integers, Sequences, FiniteSets
KindOrder == <<"fh", "at", "ev", "ch", "dg", "cg", "si", "cc", "ca", "cn">>
VARIABLES objs   \* sequence of [kind, par, it, refs]; par = 0 for the header
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Ids == [i \in 1..Len(objs) |-> i]
KidsOf(o, k) == SelectSeq(Ids, LAMBDA i : objs[i].par = o /\ objs[i].kind = k)
Kids(o) == Cat([j \in DOMAIN KindOrder |-> KidsOf(o, KindOrder[j])])
RECURSIVE Dfs(_, _)
Dfs(o, d) == LET ks == Kids(o) IN <<<<o, d>>>> \o Cat([j \in DOMAIN ks |-> Dfs(ks[j], d + 1)])

(* what is seen of an object: a channel without a unit has the one of its conversion *)
(* or, in MDF 4, the one that follows from its synchronisation type             *)
SyncUnit(it) == IF "sync" \notin DOMAIN it THEN (IF it.type = 2 THEN "s" ELSE "") ELSE CASE it.sync = 1 -> "s" [] it.sync = 2 -> "rad" [] it.sync = 3 -> "m" [] OTHER -> ""
ViewIn(os, o) ==
  IF os[o].kind # "cn" \/ os[o].it.unit # "" THEN os[o].it
  ELSE IF SyncUnit(os[o].it) # "" THEN [os[o].it EXCEPT !.unit = SyncUnit(os[o].it)]
  ELSE LET cc == {i \in DOMAIN os : os[i].par = o /\ os[i].kind = "cc"}
       IN IF cc = {} THEN os[o].it ELSE [os[o].it EXCEPT !.unit = os[CHOOSE i \in cc : TRUE].it.unit]
View(o) == ViewIn(objs, o)

NoRefs(k) == CASE k = "ev" -> [parent |-> <<0>>, rangeev |-> <<0>>, scope |-> <<>>, atts |-> <<>>]
               [] k = "ch" -> [elem |-> <<>>]
               [] k = "cn" -> [atts |-> <<>>, defx |-> <<>>]
               [] k = "ca" -> [dyn |-> <<>>, inq |-> <<>>, outq |-> <<>>, cmpq |-> <<>>, axq |-> <<>>, axc |-> <<>>]
               [] OTHER -> [none |-> <<>>]
OrBit(a, b) == IF (a \div b) % 2 = 1 THEN a ELSE a + b
Bit(kind, k) == CASE kind = "cn" /\ k = "dec" -> 4 [] kind = "cn" /\ k = "range" -> 8 [] kind = "cn" /\ k = "limit" -> 16
                  [] kind = "cn" /\ k = "elimit" -> 32 [] kind = "cc" /\ k = "dec" -> 1 [] kind = "cc" /\ k = "range" -> 2 [] OTHER -> 0
(* an item that becomes valid says so in the flags *)
After(kind, it, k, v) ==
  IF k = "props" THEN [it EXCEPT !.props = Append(@, v)]
  ELSE IF Bit(kind, k) # 0 /\ "flags" \in DOMAIN it THEN [it EXCEPT ![k] = v, !.flags = OrBit(@, Bit(kind, k))]
  ELSE [it EXCEPT ![k] = v]
AfterRef(refs, k, v) == IF k \in {"scope", "atts", "elem"} THEN [refs EXCEPT ![k] = @ \o v] ELSE [refs EXCEPT ![k] = v]

New(kind, par, it) == objs' = Append(objs, [kind |-> kind, par |-> par, it |-> it, refs |-> NoRefs(kind)])
Set(o, k, v) == objs' = [objs EXCEPT ![o].it = After(objs[o].kind, @, k, v)]
(* a channel holds an attachment once, and says in its flags that it has a default axis *)
Point(o, k, v) ==
  objs' = IF objs[o].kind = "cn" /\ k = "atts" /\ \E j \in DOMAIN objs[o].refs.atts : objs[o].refs.atts[j] = v[1] THEN objs
          ELSE [objs EXCEPT ![o].refs = AfterRef(@, k, v), ![o].it = IF k = "defx" THEN [@ EXCEPT !.flags = OrBit(@, 4096)] ELSE @]

(* the listing of a file: objects depth first, references by position *)
Expected(withrefs) ==
  LET ds == Dfs(1, 0)
      at == [i \in {ds[j][1] : j \in DOMAIN ds} |-> CHOOSE j \in DOMAIN ds : ds[j][1] = i]
      Pos(i) == IF i = 0 THEN 0 ELSE at[i]
  IN [j \in DOMAIN ds |-> [kind |-> objs[ds[j][1]].kind, depth |-> ds[j][2], it |-> View(ds[j][1]),
        refs |-> [k \in DOMAIN objs[ds[j][1]].refs |-> [n \in DOMAIN objs[ds[j][1]].refs[k] |-> Pos(objs[ds[j][1]].refs[k][n])]]]]
===============================================================================
