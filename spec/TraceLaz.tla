------------------------------- MODULE TraceLaz -------------------------------
(* Recorded LAZ writing sessions have to be behaviours of LazSession. *)
EXTENDS LazSession, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, out, twin
tvars == <<lvars, l, out, twin>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Idle == [copc |-> FALSE, fmt |-> 6, ebitems |-> 0, ebbytes |-> 0, ext |-> FALSE, wkt |-> 0]
TInit == LInit(Idle) /\ l = 1 /\ out = "" /\ twin = ""
TBegin == /\ IsEvent("Begin") /\ cfg' = Idle /\ phase' = "gone" /\ log' = <<>> /\ final' = <<>> /\ out' = "" /\ twin' = ""
TOpen == /\ IsEvent("Open") /\ cfg' = E.cfg /\ phase' = "open" /\ log' = <<>> /\ final' = <<>> /\ out' = "" /\ UNCHANGED twin
(* the writer's counts after the write *)
Counts == /\ E.points = SumWide([i \in 1..Len(log') |-> log'[i].n])
          /\ E.chunks = Len(log')
TWrite == /\ IsEvent("Write")
          /\ IF E.ok THEN Write(E.how, E.data, E.len, E.n, E.fits, 0, 0) \/ WriteNothing(E.how, E.n)
                     ELSE WriteRefused(E.how, E.len, E.n, E.fits)
          /\ Counts
          /\ UNCHANGED <<out, twin>>
TMany == /\ IsEvent("WriteMany") /\ E.ok
         /\ WriteMany(E.how, E.data, E.len, E.n, E.fits, E.times)
         /\ Counts
         /\ UNCHANGED <<out, twin>>
TCounts == IsEvent("Counts") /\ UNCHANGED <<lvars, out, twin>> /\ Counts
TClose == IsEvent("Close") /\ E.ok /\ Close /\ UNCHANGED <<out, twin>>
TDestroy == IsEvent("Destroy") /\ Destroy /\ UNCHANGED <<out, twin>>
TOutput == IsEvent("Output") /\ final # <<>> /\ out \in {"", E.digest} /\ out' = E.digest /\ UNCHANGED <<lvars, twin>>
TTwin == IsEvent("Twin") /\ final # <<>> /\ twin \in {"", E.canon} /\ twin' = E.canon /\ UNCHANGED <<lvars, out>>
TFile == IsEvent("File") /\ TRUE = FileOk(E.f, E.part) /\ UNCHANGED <<lvars, out, twin>>
(* everything written, in order *)
TRead == /\ IsEvent("Read")
         /\ E.rows = Concat(final[1].log)
         /\ E.layout = <<cfg.fmt, RecordLength(cfg)>>
         /\ UNCHANGED <<lvars, out, twin>>
TNext == TBegin \/ TOpen \/ TWrite \/ TMany \/ TCounts \/ TClose \/ TDestroy \/ TOutput \/ TTwin \/ TFile \/ TRead
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
