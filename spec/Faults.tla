-------------------------------- MODULE Faults --------------------------------
(* A writing session on a device that may fail to store what it is given.       *)
(* A step is one call: what kind, whether it succeeded, whether it succeeds on  *)
(* a healthy device (well), and whether the device has failed to store          *)
(* something by the end of the call (lost).                                     *)
EXTENDS Naturals, Sequences

Fresh == [phase |-> "none", lost |-> FALSE, reported |-> FALSE, closed |-> FALSE]
Kinds == {"new", "write", "close", "destroy"}

Allowed(st, e) ==
    /\ e.kind \in Kinds
    /\ (st.phase = "none") = (e.kind = "new")
    /\ st.phase # "gone"
    /\ st.lost => e.lost
    /\ ~e.lost => e.ok = e.well                             \* nothing is reported that did not happen
    /\ e.kind = "destroy" => e.ok                           \* destruction neither throws nor crashes
    /\ e.kind = "close" /\ e.ok /\ e.lost => st.reported    \* a loss is reported by the explicit close at the latest

After(st, e) ==
    [phase |-> CASE e.kind = "new" -> (IF e.ok THEN "open" ELSE "gone") [] e.kind = "destroy" -> "gone" [] OTHER -> "open",
     lost |-> e.lost,
     reported |-> st.reported \/ (e.well /\ ~e.ok),
     closed |-> st.closed \/ e.kind = "close"]

(* completed without any report, or without any loss: the whole file is there *)
Complete(st, same) ==
    /\ st.closed /\ ~st.reported => same
    /\ (st.closed \/ st.phase = "gone") /\ ~st.lost => same

RECURSIVE Accepts(_, _, _)
Accepts(st, steps, same) ==
    IF steps = <<>> THEN Complete(st, same)
    ELSE Allowed(st, Head(steps)) /\ Accepts(After(st, Head(steps)), Tail(steps), same)
=============================================================================
