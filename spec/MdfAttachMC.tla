----------------------------- MODULE MdfAttachMC ------------------------------
(* Abstract life of attachments: a session attaches sources, storing the       *)
(* content (embedded) or the reference; sources change; exports look through   *)
(* the stored form.  Checked: an embedded attachment is never influenced by    *)
(* later sessions, other attachments or changes of its source.                 *)
EXTENDS MdfAttach, TLC
CONSTANTS Names, Contents, MaxAtt
VARIABLES disk,     \* source name -> content or "gone"
          stored,   \* the file: sequence of [name, emb, comp, blob]
          ghost,    \* what each attachment was given
          open, fresh
vars == <<disk, stored, ghost, open, fresh>>
Pack(c, comp) == IF comp THEN <<"z", c>> ELSE c
Unpack(b, comp) == IF comp THEN b[2] ELSE b
Init == disk \in [Names -> Contents] /\ stored = <<>> /\ ghost = <<>> /\ open = FALSE /\ fresh = <<>>
Open == ~open /\ open' = TRUE /\ fresh' = <<>> /\ UNCHANGED <<disk, stored, ghost>>
Attach(n, e, z) == /\ open /\ Len(stored) + Len(fresh) < MaxAtt /\ disk[n] # "gone"
                   /\ fresh' = Append(fresh, [name |-> n, emb |-> e, comp |-> z])
                   /\ UNCHANGED <<disk, stored, ghost, open>>
\* the sources are read when the session is initialised
Close == /\ open /\ open' = FALSE
         /\ stored' = stored \o [i \in DOMAIN fresh |-> fresh[i] @@ [blob |-> IF fresh[i].emb THEN Pack(disk[fresh[i].name], fresh[i].comp) ELSE <<>>]]
         /\ ghost' = ghost \o [i \in DOMAIN fresh |-> disk[fresh[i].name]]
         /\ fresh' = <<>> /\ UNCHANGED disk
Change(n) == ~open /\ \E c \in Contents \cup {"gone"} : disk' = [disk EXCEPT ![n] = c] /\ UNCHANGED <<stored, ghost, open, fresh>>
Next == Open \/ Close \/ \E n \in Names : Change(n) \/ \E e, z \in BOOLEAN : Attach(n, e, z)
Spec == Init /\ [][Next]_vars
Export(i) == IF stored[i].emb THEN Unpack(stored[i].blob, stored[i].comp) ELSE disk[stored[i].name]
EmbeddedKeeps == \A i \in DOMAIN stored : stored[i].emb => Export(i) = ghost[i]
OnlyGrows == [][Len(stored') >= Len(stored) /\ SubSeq(stored', 1, Len(stored)) = stored]_vars
===============================================================================
