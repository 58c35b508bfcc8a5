------------------------------ MODULE TraceFaults ------------------------------
(* Recorded sessions on failing devices have to be sessions of Faults.tla. *)
EXTENDS Faults, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1
TBegin == IsEvent("Begin")
TRun == IsEvent("Run") /\ TRUE = Accepts(Fresh, E.steps, E.same)
TNext == TBegin \/ TRun
TSpec == TInit /\ [][TNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
