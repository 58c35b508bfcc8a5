------------------------------- MODULE MCFaults -------------------------------
(* The design the writer uses: a stream whose failure is remembered, looked at  *)
(* by every chunk and by the flush at the end.  Whatever the device does, such  *)
(* a session is one that Faults.tla allows.                                     *)
EXTENDS Faults, FiniteSets, TLC
CONSTANTS Ops, Bytes        \* calls in a session, bytes per call

VARIABLES mode, exc,        \* how the device fails; whether the stream throws at once
          stored, wanted,   \* bytes the device holds; bytes the session has produced
          bad, failed,      \* what the stream remembers; whether the device has failed
          st, step, n
vars == <<mode, exc, stored, wanted, bad, failed, st, step, n>>

Init ==
    /\ mode \in {"hard", "once", "lazy"} /\ exc \in BOOLEAN
    /\ stored = {} /\ wanted = {} /\ bad = FALSE /\ failed = FALSE
    /\ st = Fresh /\ step = [kind |-> "none"] /\ n = 0

(* what becomes of k bytes when the device may give up after f of them *)
Taken(k, f) ==
    IF bad THEN 0
    ELSE IF failed /\ mode = "hard" THEN 0
    ELSE f
Call(kind, k, f, flush) ==
    LET ids == {<<n, i>> : i \in 1..k}
        got == IF failed /\ mode = "lazy" THEN {} ELSE {<<n, i>> : i \in 1..Taken(k, f)}
        miss == got # ids
        fails == failed \/ (miss /\ ~bad)
        flag == bad \/ (miss /\ mode # "lazy") \/ (flush /\ mode = "lazy" /\ fails)
        lost == wanted \cup ids # stored \cup got
        ok == CASE kind = "new" -> ~(exc /\ flag)
                [] kind = "destroy" -> TRUE
                [] OTHER -> ~flag
    IN /\ stored' = stored \cup got /\ wanted' = wanted \cup ids
       /\ bad' = flag /\ failed' = fails
       /\ step' = [kind |-> kind, ok |-> ok, well |-> TRUE, lost |-> lost]
       /\ st' = After(st, step')
       /\ n' = n + 1
       /\ UNCHANGED <<mode, exc>>
Next ==
    \/ st.phase = "none" /\ \E f \in 0..Bytes : Call("new", Bytes, f, FALSE)
    \/ st.phase = "open" /\ n < Ops /\ ~st.closed /\ \E k \in 1..Bytes : \E f \in 0..k : Call("write", k, f, FALSE)
    \/ st.phase = "open" /\ ~st.closed /\ \E f \in 0..Bytes : Call("close", Bytes, f, TRUE)
    \/ st.phase = "open" /\ \E k \in {IF st.closed THEN 0 ELSE Bytes} : \E f \in 0..k : Call("destroy", k, f, TRUE)
Spec == Init /\ [][Next]_vars
Conforms == [][Allowed(st, step')]_vars
WholeFile == Complete(st, stored = wanted)
NeverSilent == st.closed /\ ~st.reported => stored = wanted
=============================================================================
