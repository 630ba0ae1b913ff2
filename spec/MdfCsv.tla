------------------------------- MODULE MdfCsv -------------------------------
(* Export of files to CSV.  A file is a sequence of channel groups as its    *)
(* reader delivers them; a directory is a bag of CSV files; an export adds   *)
(* one table per group that holds samples, and replaces existing files only  *)
(* when told to.  A CSV file is judged by the table it denotes (RFC 4180     *)
(* with a semicolon), not by how its cells are quoted.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Quote == 34
Semi == 59
LF == 10
CR == 13

(* ---- what a byte string denotes: rows of cells ---- *)
(* mode: "n" start of a cell, "p" in a plain cell, "q" in a quoted cell, "e" after a quote inside a quoted cell, "r" after a carriage return outside quotes: a line feed must follow *)
Fresh == [rows |-> <<>>, row |-> <<>>, cell |-> <<>>, mode |-> "n", bad |-> FALSE, any |-> FALSE]
EndCell(s) == [s EXCEPT !.row = Append(s.row, s.cell), !.cell = <<>>, !.mode = "n", !.any = TRUE]
EndRow(s) == LET t == EndCell(s) IN [t EXCEPT !.rows = Append(t.rows, t.row), !.row = <<>>, !.any = FALSE]
Eat(s, b) ==
  CASE s.mode = "r" -> IF b = LF THEN EndRow(s) ELSE [s EXCEPT !.bad = TRUE]
    [] s.mode \in {"n", "p", "e"} /\ b = CR -> [s EXCEPT !.mode = "r"]
    [] s.mode \in {"n", "p"} /\ b = Semi -> EndCell(s)
    [] s.mode \in {"n", "p"} /\ b = LF -> EndRow(s)
    [] s.mode = "n" /\ b = Quote -> [s EXCEPT !.mode = "q", !.any = TRUE]
    [] s.mode \in {"n", "p"} -> [s EXCEPT !.cell = Append(s.cell, b), !.mode = "p", !.any = TRUE, !.bad = s.bad \/ b = Quote]
    [] s.mode = "q" /\ b = Quote -> [s EXCEPT !.mode = "e"]
    [] s.mode = "q" -> [s EXCEPT !.cell = Append(s.cell, b)]
    [] s.mode = "e" /\ b = Quote -> [s EXCEPT !.cell = Append(s.cell, Quote), !.mode = "q"]
    [] s.mode = "e" /\ b = Semi -> EndCell(s)
    [] s.mode = "e" /\ b = LF -> EndRow(s)
    [] OTHER -> [s EXCEPT !.bad = TRUE]
Denotes(bytes) == LET s == FoldLeft(Eat, Fresh, bytes)
                      t == IF s.any THEN EndRow(s) ELSE s
                  IN [bad |-> t.bad \/ s.mode \in {"q", "r"}, rows |-> t.rows]

(* ---- the table of a group ---- *)
(* the frame as a whole is not a column of a bus log: its parts are *)
Frames == {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"}
Columns(g) == SelectSeq(g.chs, LAMBDA c : ~(g.bus /\ c.text \in Frames))
Order(g) == SelectSeq([c \in DOMAIN g.chs |-> c], LAMBDA c : g.chs[c].master)
            \o SelectSeq([c \in DOMAIN g.chs |-> c], LAMBDA c : ~g.chs[c].master)
Title(ch) == IF ch.unit = <<>> THEN ch.name ELSE ch.name \o <<32, 91>> \o ch.unit \o <<93>>
Table(g) == LET o == Order(g) IN
  <<[i \in DOMAIN o |-> Title(g.chs[o[i]])]>>
  \o [k \in 1..g.n |-> [i \in DOMAIN o |-> IF g.chs[o[i]].eng[k].ok THEN g.chs[o[i]].eng[k].v ELSE <<>>]]
Exported(v) == LET w == [i \in DOMAIN v |-> [v[i] EXCEPT !.chs = Columns(v[i])]]
               IN SelectSeq(w, LAMBDA g : ~g.vlsd /\ g.n > 0 /\ g.chs # <<>>)

VARIABLES held,    \* the files, each as its reader delivers it
          dirs     \* per directory: number of CSV files there
cvars == <<held, dirs>>

Same(a, b) == \A x \in {a[i] : i \in DOMAIN a} \cup {b[i] : i \in DOMAIN b} :
                Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
Old == <<111, 108, 100>>
=============================================================================
