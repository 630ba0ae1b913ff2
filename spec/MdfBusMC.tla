------------------------------ MODULE MdfBusMC --------------------------------
(* How payloads travel: messages of two groups share one data stream.  With    *)
(* "vlsd" storage a payload is a record of its own, written together with the  *)
(* main record; with "fixed" storage main records hold an offset into a        *)
(* separate store; with "mlsd" the payload lies padded in the record.  The     *)
(* background writer empties the queue at any moment, the reader pairs the     *)
(* parts again.  Checked: the messages recovered from the stored part of the   *)
(* log plus the queue are exactly the messages saved, group by group.          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxMsg, Pay
VARIABLES storage, queue, stream, store, saved
vars == <<storage, queue, stream, store, saved>>
G == {1, 2}
Payloads == {<<>>} \cup {<<p>> : p \in Pay} \cup {<<p, p>> : p \in Pay}
MaxLen == 2
Pad == 0
Fill(b) == [i \in 1..MaxLen |-> IF i <= Len(b) THEN b[i] ELSE Pad]
Size(s) == LET RECURSIVE Sum(_)
               Sum(i) == IF i = 0 THEN 0 ELSE Len(s[i]) + 1 + Sum(i - 1)
           IN Sum(Len(s))
Init == /\ storage \in {"vlsd", "fixed", "mlsd"} /\ queue = <<>> /\ stream = <<>>
        /\ store = [g \in G |-> <<>>] /\ saved = [g \in G |-> <<>>]
Save(g, b) == /\ Len(saved[1]) + Len(saved[2]) < MaxMsg
              /\ saved' = [saved EXCEPT ![g] = Append(@, b)]
              /\ queue' = Append(queue, [g |-> g, b |-> b]) /\ UNCHANGED <<storage, stream, store>>
\* one record leaves the queue
Write == /\ queue # <<>> /\ queue' = Tail(queue) /\ UNCHANGED <<storage, saved>>
         /\ LET q == Head(queue) IN
            CASE storage = "vlsd" -> stream' = stream \o <<[r |-> 10 + q.g, b |-> q.b], [r |-> q.g, len |-> Len(q.b)]>> /\ UNCHANGED store
              [] storage = "fixed" -> /\ stream' = Append(stream, [r |-> q.g, len |-> Len(q.b), off |-> Size(store[q.g])])
                                      /\ store' = [store EXCEPT ![q.g] = Append(@, q.b)]
              [] OTHER -> stream' = Append(stream, [r |-> q.g, len |-> Len(q.b), in |-> Fill(q.b)]) /\ UNCHANGED store
Next == Write \/ \E g \in G, b \in Payloads : Save(g, b)
Spec == Init /\ [][Next]_vars
Main(g) == SelectSeq(stream, LAMBDA x : x.r = g)
Vlsd(g) == SelectSeq(stream, LAMBDA x : x.r = 10 + g)
At(s, off) == s[CHOOSE i \in DOMAIN s : Size(SubSeq(s, 1, i - 1)) = off]
Rec(g, i) == LET m == Main(g)[i] IN
             CASE storage = "vlsd" -> Vlsd(g)[i].b
               [] storage = "fixed" -> At(store[g], m.off)
               [] OTHER -> SubSeq(m.in, 1, m.len)
Recovered == \A g \in G : LET n == Len(Main(g)) IN
               /\ n <= Len(saved[g])
               /\ \A i \in 1..n : Rec(g, i) = saved[g][i] /\ Main(g)[i].len = Len(saved[g][i])
               /\ n + Len(SelectSeq(queue, LAMBDA q : q.g = g)) = Len(saved[g])
TypeOK == storage = "vlsd" => Len(Main(1)) = Len(Vlsd(1)) /\ Len(Main(2)) = Len(Vlsd(2))
===============================================================================
