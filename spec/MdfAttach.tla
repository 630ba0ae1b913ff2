------------------------------ MODULE MdfAttach -------------------------------
(* Attachments of a file: sessions add attachments, sources may change or      *)
(* vanish afterwards, every export delivers the bytes at the time of attaching.*)
EXTENDS Integers, Sequences
\* attachment: [name, type, emb, comp, creator, comment, size, content, md5]
Describes(o, a) == /\ o.name = a.name /\ o.type = a.type /\ o.emb = a.emb /\ o.comp = a.comp
                   /\ o.creator = a.creator /\ o.comment = a.comment
                   /\ o.size = a.size /\ o.md5 = a.md5
Exported(o, a) == /\ o.okf /\ o.file = a.content           \* to a file
                  /\ o.oks /\ o.stream = a.content         \* to a stream
Holds(file, seen) == /\ Len(seen) = Len(file)
                     /\ \A i \in DOMAIN file : Describes(seen[i], file[i]) /\ Exported(seen[i], file[i])
===============================================================================
