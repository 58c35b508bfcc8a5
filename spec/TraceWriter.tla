------------------------------ MODULE TraceWriter ------------------------------
(* Recorded writing sessions (and what reading their output back answered) have   *)
(* to be behaviours of CopcWriter.                                                *)
EXTENDS CopcWriter, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, out, twin
tvars == <<wvars, l, out, twin>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Idle == [copc |-> TRUE, fmt |-> 6, ebitems |-> 0, ebbytes |-> 0, ext |-> FALSE, wkt |-> 0]

TInit == WInit(Idle) /\ l = 1 /\ out = "" /\ twin = ""

TBegin == /\ IsEvent("Begin")
          /\ cfg' = Idle /\ phase' = "gone" /\ log' = <<>> /\ nodes' = <<>> /\ final' = <<>> /\ out' = "" /\ twin' = ""
TOpen == /\ IsEvent("Open")
         /\ cfg' = E.cfg /\ phase' = "open" /\ log' = <<>> /\ nodes' = <<>> /\ final' = <<>> /\ out' = "" /\ UNCHANGED twin

(* chunks are written one after the other *)
FollowsOn == IF log = <<>> THEN TRUE ELSE E.off = log[Len(log)].off + log[Len(log)].size
TAdd == /\ IsEvent("Add") /\ E.ok
        /\ Add(E.k, E.p, E.how, E.data, E.len, E.n, E.fits, E.off, E.size)
        /\ FollowsOn
        (* the returned node describes what was written *)
        /\ E.rk = E.k /\ E.rp = E.p /\ E.rn = CountOf(E.how, E.len, E.n)
        /\ E.how = "comp" => E.size = E.len
        /\ UNCHANGED <<out, twin>>
TAddMany == /\ IsEvent("AddMany")
            /\ AddMany(E.adds)
            /\ TRUE = \A i \in 1..Len(E.adds) :
                 LET a == E.adds[i] IN
                 /\ a.ok /\ a.rk = a.k /\ a.rp = a.p /\ a.rn = CountOf(a.how, a.len, a.n)
                 /\ IF i = 1 THEN (IF log = <<>> THEN TRUE ELSE a.off = log[Len(log)].off + log[Len(log)].size)
                    ELSE a.off = E.adds[i - 1].off + E.adds[i - 1].size
                 /\ a.how = "comp" => a.size = a.len
            /\ UNCHANGED <<out, twin>>
TAddRefused == /\ IsEvent("Add") /\ ~E.ok
               /\ AddRefused(E.k, E.p, E.how, E.len, E.n, E.fits)
               /\ UNCHANGED <<out, twin>>
TMove == IsEvent("Move") /\ E.ok /\ Move(E.k, E.p) /\ UNCHANGED <<out, twin>>
TMoveRefused == IsEvent("Move") /\ ~E.ok /\ MoveRefused(E.k, E.p) /\ UNCHANGED <<out, twin>>
TFind == /\ IsEvent("Find")
         /\ E.valid <=> Known(E.k)
         /\ Known(E.k) => /\ E.rk = E.k /\ E.rp = nodes[E.k].page
                          /\ LET c == log[nodes[E.k].chunk] IN E.off = c.off /\ E.size = c.size /\ E.n = c.n
         /\ UNCHANGED <<wvars, out, twin>>
TClose == IsEvent("Close") /\ E.ok /\ Close /\ UNCHANGED <<out, twin>>
TDestroy == IsEvent("Destroy") /\ Destroy /\ UNCHANGED <<out, twin>>
(* the output, sampled after completion: complete and never changing again *)
TOutput == /\ IsEvent("Output")
           /\ final # <<>>
           /\ out \in {"", E.digest}
           /\ out' = E.digest
           /\ UNCHANGED <<wvars, twin>>
(* another writer with the same history, completed in another way, made the same file *)
TTwin == /\ IsEvent("Twin")
         /\ final # <<>>
         /\ twin \in {"", E.canon}
         /\ twin' = E.canon
         /\ UNCHANGED <<wvars, out>>
TFile == IsEvent("File") /\ FileOk(E.f, E.part) /\ UNCHANGED <<wvars, out, twin>>

(* ---- reading the output back *)
TAll == /\ IsEvent("All")
        /\ Len(E.nodes) = Cardinality(DOMAIN final.nodes)
        /\ {E.nodes[i] : i \in 1..Len(E.nodes)} = {[key |-> k, page |-> final.nodes[k].page, off |-> final.nodes[k].off, size |-> final.nodes[k].size, n |-> final.nodes[k].n] : k \in DOMAIN final.nodes}
        /\ UNCHANGED <<wvars, out, twin>>
TPages == /\ IsEvent("Pages")
          /\ Len(E.pages) = Cardinality(ExpectedPages(final.nodes))
          /\ RangeOf(E.pages) = ExpectedPages(final.nodes)
          /\ UNCHANGED <<wvars, out, twin>>
(* point data by key: decompressed, compressed, and as points (one token per point) *)
TRead == /\ IsEvent("Read")
         /\ IF E.k \in DOMAIN final.nodes
            THEN LET c == final.log[final.nodes[E.k].chunk] IN
                 CASE E.form = "data" -> E.v = c.data.plain
                   [] E.form = "comp" -> IF c.how = "comp" THEN E.v = c.data.raw ELSE E.dec = c.data.plain
                   [] OTHER -> E.rows = c.data.rows /\ E.layout = <<cfg.fmt, RecordLength(cfg), cfg.ebbytes>>
            ELSE E.v = "" /\ E.rows = <<>>
         /\ UNCHANGED <<wvars, out, twin>>

TNext == TTwin \/ TBegin \/ TOpen \/ TAdd \/ TAddMany \/ TAddRefused \/ TMove \/ TMoveRefused \/ TFind \/ TClose \/ TDestroy \/ TOutput \/ TFile \/ TAll \/ TPages \/ TRead
TSpec == TInit /\ [][TNext]_tvars

Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
