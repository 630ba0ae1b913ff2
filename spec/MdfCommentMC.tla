--------------------------- MODULE MdfCommentMC ---------------------------
(* Every short history of additions to a comment: names stay unique, nothing added is ever lost or replaced, *)
(* a known tree grows by merging, and reading back the result entry by entry denotes the same comment.      *)
EXTENDS MdfComment
CONSTANTS MaxAdd
VARIABLES hist, m
a0 == [ci |-> "0", lang |-> "", cust |-> <<>>]
P(n, v) == [k |-> "p", x |-> a0 @@ [name |-> n, desc |-> "", unit |-> "", uref |-> "", ro |-> FALSE, type |-> 0, val |-> v]]
E(n, v) == [k |-> "e", x |-> a0 @@ [name |-> n, desc |-> "", unit |-> "", uref |-> "", ro |-> FALSE, type |-> 0, val |-> v, vals |-> <<>>]]
L(k, n, s) == [k |-> k, x |-> a0 @@ [name |-> n, desc |-> "", adds |-> s]]
Leaf == {P(n, v) : n \in {"", "a", "b"}, v \in {"1", "2"}} \cup {E("a", "1"), E("b", "1")}
Sub1 == {<<>>} \cup {<<x>> : x \in {P("a", "1"), P("a", "2"), P("b", "1"), L("t", "u", <<P("a", "1")>>), L("t", "u", <<P("b", "1")>>)}}
Universe == Leaf \cup {L("t", "t", s) : s \in Sub1} \cup {L("l", n, s) : n \in {"a", "l"}, s \in {<<>>, <<P("a", "1")>>}}
Init == hist = <<>> /\ m = Nothing
Next == Len(hist) < MaxAdd /\ \E a \in Universe : hist' = Append(hist, a) /\ m' = Put(m, a)
Spec == Init /\ [][Next]_<<hist, m>>
(* the recursive fold and the step-wise additions agree *)
Folded == m = Fold(hist, 1, Nothing)
RECURSIVE Unique(_)
Unique(c) == /\ Cardinality(Names(c)) = Cardinality(c.p) + Cardinality(c.t) + Cardinality(c.l) + Cardinality(c.e)
             /\ "" \notin Names(c)
             /\ \A x \in c.t \cup c.l : Unique(x.m)
UniqueNames == Unique(m)
RECURSIVE Grows(_, _)
Grows(c, d) == /\ c.p \subseteq d.p /\ c.e \subseteq d.e /\ c.l \subseteq d.l
               /\ \A x \in c.t : \E y \in d.t : y.name = x.name /\ y.at = x.at /\ Grows(x.m, y.m)
NothingLost == [][Grows(m, m')]_<<hist, m>>
(* each property offered with a name that was free is found *)
Present == \A i \in DOMAIN hist : hist[i].k = "p" /\ hist[i].x.name # "" /\ (\A j \in 1..(i - 1) : hist[j].x.name # hist[i].x.name)
              => \E p \in m.p : p = Prop(hist[i].x)
(* what a tree was given under some name can be found in it *)
Merged == \A i \in DOMAIN hist : hist[i].k = "t" => \E t \in m.t : t.name = hist[i].x.name /\ Names(Fold(hist[i].x.adds, 1, Nothing)) \subseteq Names(t.m)
Idempotent == Merge(m, m) = m
=============================================================================
