----------------------------- MODULE MdfRecord -----------------------------
(* The record of a channel group as a state machine: setting values and      *)
(* invalidation marks, saving a record, and what reading it back means.      *)
EXTENDS MdfCodec

(* ---- the group as a state machine ---- *)
VARIABLES lay,    \* channels
          rec,    \* the record under construction (data bytes)
          inv,    \* set of <<channel, element>> declared invalid
          saved   \* sequence of [r |-> record, x |-> invalid set]
vars == <<lay, rec, inv, saved>>

Configure(l, size) == lay' = l /\ rec' = [k \in 1..size |-> 0] /\ inv' = {} /\ saved' = <<>>
Set(c, i, raw, ok) ==
  /\ rec' = Store(rec, lay[c], i, raw)
  /\ inv' = IF lay[c].inv THEN (IF ok THEN inv \ {<<c, i>>} ELSE inv \cup {<<c, i>>}) ELSE inv
  /\ UNCHANGED <<lay, saved>>
Save == saved' = Append(saved, [r |-> rec, x |-> inv]) /\ UNCHANGED <<lay, rec, inv>>
ValidIn(x, c, i) == <<c, i>> \notin x
=============================================================================
