------------------------------- MODULE TraceValues -------------------------------
(* Recorded answers about small values are those of Values. *)
EXTENDS Values, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1
TBegin == IsEvent("Begin")
(* products in multiples of 1/u^2, everything else in multiples of 1/u *)
TVec == /\ IsEvent("Vec")
        /\ E.r.add = Each(Plus, E.a, E.b) /\ E.r.sub = Each(Minus, E.a, E.b) /\ E.r.mul = Each(Times, E.a, E.b)
        /\ E.r.addd = All(Plus, E.a, E.d) /\ E.r.subd = All(Minus, E.a, E.d) /\ E.r.muld = All(Times, E.a, E.d)
        /\ E.r.eq = (E.a = E.b) /\ E.r.ne = (E.a # E.b)
        /\ E.exact => TRUE = \A i \in Axes : Quotient(E.u, E.r.div[i], E.a[i], E.b[i]) /\ Quotient(E.u, E.r.divd[i], E.a[i], E.d)
        /\ E.floor => TRUE = \A i \in Axes : Below(E.r.fdiv[i], E.a[i], E.b[i]) /\ Below(E.r.fdivd[i], E.a[i], E.d)
TList == IsEvent("List") /\ (IF Len(E.given) = 3 THEN E.ok /\ E.v = E.given ELSE ~E.ok)
(* the same value, from what was printed *)
TText == IsEvent("Text") /\ E.back = E.v
TEntry == /\ IsEvent("Entry")
          /\ E.bytes = Stored(E.kb, E.ob, E.sb, E.nb)
          /\ E.again = E.bytes
          /\ E.valid = EntryValid(E.k, E.size)
          /\ E.page = IsPageEntry(E.k, E.size, E.n)
          /\ E.pvalid = PageValid(E.k, E.size, FALSE)
          /\ E.lvalid = PageValid(E.k, E.size, TRUE)
TEntries == /\ IsEvent("Entries")
            /\ E.node = (E.a = E.b)
            /\ E.pages = (E.a.key = E.b.key /\ E.a.off = E.b.off /\ E.a.size = E.b.size /\ E.la = E.lb)
TNext == TBegin \/ TVec \/ TList \/ TText \/ TEntry \/ TEntries
TSpec == TInit /\ [][TNext]_l
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
================================================================================
