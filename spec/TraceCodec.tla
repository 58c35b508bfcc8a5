------------------------------- MODULE TraceCodec ------------------------------
(* Recorded uses of the compression helpers have to be behaviours of Codec. *)
EXTENDS Codec, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == CInit /\ l = 1
TBegin == IsEvent("Begin") /\ streams' = <<>> /\ codes' = {}
TNew == IsEvent("New") /\ NewStream(E.s)
TPut == IsEvent("Put") /\ E.kept /\
    IF E.ok THEN E.whole /\ E.n = Len(E.rows) /\ Put(E.s, E.lay, E.rows, E.code)
    ELSE Refused(E.lay, E.whole) /\ E.added = 0 /\ UNCHANGED cvars
TEncode == IsEvent("Encode") /\
    IF E.ok THEN E.whole /\ Encode(E.lay, E.rows, E.code) ELSE Refused(E.lay, E.whole) /\ UNCHANGED cvars
TGet == IsEvent("Get") /\ E.ok /\ E.usable /\ E.rows = Got(E.s, E.i, E.k) /\ UNCHANGED cvars
TDecode == IsEvent("Decode") /\ E.ok /\ (\E c \in codes : c.lay = E.lay /\ c.code = E.code /\ E.rows = First(c.rows, E.k)) /\ UNCHANGED cvars
TNext == TBegin \/ TNew \/ TPut \/ TEncode \/ TGet \/ TDecode
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
