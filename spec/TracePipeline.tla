----------------------------- MODULE TracePipeline -----------------------------
(* Recorded calls of the parallel pipelines have to be calls of Pipeline.tla. *)
EXTENDS Pipeline, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, call, delivered, queued, finished
tvars == <<l, call, delivered, queued, finished>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ call = <<>> /\ delivered = <<>> /\ queued = 0 /\ finished = <<>>
TBegin == IsEvent("Begin") /\ call' = <<>> /\ delivered' = <<>> /\ queued' = 0 /\ finished' = <<>>
TCall == IsEvent("Call") /\ call = <<>> /\ call' = <<E.c>> /\ delivered' = <<>> /\ queued' = 0 /\ finished' = <<>>
(* no more than the given number of nodes is queued at once *)
TSubmit == /\ IsEvent("Submit")
           /\ call # <<>> /\ queued < call[1].chunk
           /\ queued' = queued + 1
           /\ UNCHANGED <<call, delivered, finished>>
TFinish == /\ IsEvent("Finish")
           /\ queued' = queued - 1
           /\ finished' = finished \o E.keys
           /\ UNCHANGED <<call, delivered>>
(* a result is delivered for a node that has been processed, and it is that node's *)
TDeliver == /\ IsEvent("Deliver")
            /\ call # <<>>
            /\ InList(E.r, Payloads(call[1]))
            /\ delivered' = Append(delivered, E.r)
            /\ E.traced => Times([i \in 1..Len(delivered') |-> delivered'[i].key], E.r.key) <= Times(finished, E.r.key)
            /\ E.count = Len(E.r.pts)
            /\ UNCHANGED <<call, queued, finished>>
TEnd == /\ IsEvent("End")
        /\ call # <<>>
        /\ TRUE = EndOk(call[1], E, delivered)
        /\ call' = <<>>
        /\ UNCHANGED <<delivered, queued, finished>>
TNext == TBegin \/ TCall \/ TSubmit \/ TFinish \/ TDeliver \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
