------------------------------ MODULE TraceReader ------------------------------
(* Recorded reading sessions: every answer has to be the one CopcReader and        *)
(* Queries determine from the file alone.                                         *)
EXTENDS Queries, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f, c, data, geo, twin
tvars == <<l, f, c, data, geo, twin>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Same == UNCHANGED <<f, c, data, geo, twin>>
None == [len |-> 0, full |-> 0]
NoContent == [pages |-> {}, bad |-> {}, odd |-> FALSE, twice |-> FALSE, unclear |-> FALSE, nodes |-> {}]
TInit == l = 1 /\ f = None /\ c = NoContent /\ data = <<>> /\ geo = <<>> /\ twin = ""
TBegin == IsEvent("Begin") /\ f' = None /\ c' = NoContent /\ data' = <<>> /\ geo' = <<>> /\ twin' = ""

(* the file every following question is about *)
TFile == /\ IsEvent("File")
         /\ f' = E.f
         /\ c' = IF E.f.copc /\ Openable(E.f, TRUE) THEN Content(E.f) ELSE NoContent
         /\ data' = E.data /\ geo' = E.geo /\ UNCHANGED twin
Cut == f.len < f.full
(* records said to reach into the points *)
Overrun == f.vlrend > f.hdr.pointoff
Damaged == Cut \/ Overrun \/ ~KnownTypes(f) \/ ~Openable(f, f.copc) \/ ~Whole(c)
(* an error is an answer only where something is damaged *)
Failed == ~E.ok /\ Damaged
TOpen == /\ IsEvent("Open") /\ Same
         /\ IF E.ok THEN Openable(f, f.copc) ELSE Damaged

TFind == IsEvent("Find") /\ Same /\ (IF E.ok THEN FindOk(c, E.k, E.nodes) ELSE Failed)
TAll == IsEvent("All") /\ Same /\ (IF E.ok THEN AllOk(c, E.nodes) ELSE Failed)
TPages == IsEvent("Pages") /\ Same /\ (IF E.ok THEN PagesAre(c, E.pages) ELSE Failed)
TKids == IsEvent("Kids") /\ Same /\ (IF E.ok THEN KidsOk(c, E.k, E.nodes) ELSE Failed)

(* point data: what the producer stored at the node's offset *)
Stored(off) == {i \in 1..Len(data) : data[i].off = off}
DataOk(n) == LET s == Stored(n.off) IN
    IF s = {} THEN n.n = 0 /\ E.v = "" /\ E.rows = <<>>
    ELSE LET d == data[CHOOSE i \in s : TRUE] IN
         \/ n.n # d.n \/ n.size # d.size          (* an altered entry *)
         \/ /\ d.off + d.size <= f.len
            /\ CASE E.form = "data" -> E.v = d.plain
                 [] E.form = "comp" -> E.v = d.raw
                 [] OTHER -> E.rows = d.rows /\ E.layout = <<f.hdr.fmt, f.hdr.reclen>>
(* a node entry that points to no chunk, or describes it wrongly *)
Astray(n) == IF Stored(n.off) = {} THEN n.n # 0 ELSE LET d == data[CHOOSE i \in Stored(n.off) : TRUE] IN n.n # d.n \/ n.size # d.size
TRead == /\ IsEvent("Read") /\ Same
         /\ IF ~E.ok THEN Failed \/ (E.k \in KeysOf(c) /\ Astray(NodeAt(c, E.k)))
            ELSE IF ~Clear(c) THEN TRUE
            ELSE IF E.k \in KeysOf(c) THEN DataOk(NodeAt(c, E.k))
            ELSE E.v = "" /\ E.rows = <<>> /\ ~AboveBad(c, E.k)

(* all points of a LAZ file *)
TSweep == /\ IsEvent("Sweep") /\ Same
          /\ IF ~E.ok THEN Failed
             ELSE LET rows == [i \in 1..Len(data) |-> data[i].rows] IN
                  /\ E.rows = FlatRows(rows)
                  /\ E.layout = <<f.hdr.fmt, f.hdr.reclen>>

(* the configuration: everything the records say, wherever they are, and defaults  *)
(* that fit the file for what is missing                                           *)
TConfig == /\ IsEvent("Config") /\ Same
           /\ IF ~E.ok THEN Failed ELSE (KnownTypes(f) => E.got = ConfigOf(f, E.said))
(* the configuration as a whole is the same however the records are placed *)
TTwin == IsEvent("Twin") /\ UNCHANGED <<f, c, data, geo>> /\ twin \in {"", E.digest} /\ twin' = E.digest

(* spatial questions *)
G == geo[1]
Nd == {n.key : n \in c.nodes}
TDepth == IsEvent("Depth") /\ Same /\ (IF E.ok THEN E.v = DepthFor(Nd, G.spacing, E.res) ELSE Failed)
TNodes == /\ IsEvent("Nodes") /\ Same
          /\ IF ~E.ok THEN Failed
             ELSE LET s == NodesFor(Nd, G, E.q, E.box, E.res) IN
                  /\ Len(E.keys) = Cardinality(s)
                  /\ RangeOf(E.keys) = s
Rows == [n \in c.nodes |-> LET s == Stored(n.off) IN IF s = {} THEN <<>> ELSE data[CHOOSE i \in s : TRUE].pts]
TPoints == /\ IsEvent("Points") /\ Same
           /\ IF ~E.ok THEN Failed
              ELSE \/ E.q = "box" /\ ~Tidy(c.nodes, Rows, G)
                   \/ SameBag(E.rows, PointsFor(c.nodes, Rows, G, E.q, E.box, E.res))
TValid == /\ IsEvent("Validate") /\ Same
          /\ IF ~E.ok THEN Failed
             ELSE LET r == Validation(c.nodes, Rows, G) IN
                  /\ E.v = r.fine
                  /\ E.verbose => E.outhdr = r.outhdr /\ E.outnode = r.outnode /\ (E.says <=> r.fine) /\ (E.saysnot <=> ~r.fine)
                  /\ ~E.verbose => E.quiet
TNext == TBegin \/ TFile \/ TOpen \/ TFind \/ TAll \/ TPages \/ TKids \/ TRead \/ TSweep \/ TConfig \/ TTwin \/ TDepth \/ TNodes \/ TPoints \/ TValid
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
