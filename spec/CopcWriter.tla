------------------------------ MODULE CopcWriter ------------------------------
(* A COPC writing session: nodes are added under pages (or refused), moved       *)
(* between pages and looked up; closing or destroying the writer completes the   *)
(* file, once.                                                                   *)
EXTENDS LasFile, TLC

VARIABLES
    cfg,      \* configuration in force, see LasFile
    phase,    \* "open", "closed" (completed, object alive), "gone" (destroyed)
    log,      \* every chunk written so far, in order
    nodes,    \* key -> [chunk, page]: last chunk and page of every added key
    final     \* what the completed file has to contain, or <<>> while open
wvars == <<cfg, phase, log, nodes, final>>

WInit(c) ==
    /\ cfg = c
    /\ phase = "open"
    /\ log = <<>>
    /\ nodes = <<>>      \* the empty function
    /\ final = <<>>

(* ---- preconditions *)
KeysOk(k, p) == IsValidKey(k) /\ IsValidKey(p) /\ BelowOrSelf(k, p) /\ InOctree(k)
DataOk(how, len, n, fits) ==
    CASE how = "raw"  -> len > 0 /\ len % RecordLength(cfg) = 0
      [] how = "comp" -> n > 0 /\ len > 0 /\ fits          \* fits: its length fits an entry
      [] how = "pts"  -> n > 0 /\ fits
CountOf(how, len, n) == IF how = "raw" THEN len \div RecordLength(cfg) ELSE n

(* ---- actions *)
(* data: [raw, plain, rows] - the bytes given, the uncompressed records they stand *)
(* for, and one token per point with all its attributes                            *)
Add(k, p, how, data, len, n, fits, off, size) ==
    /\ phase = "open"
    /\ KeysOk(k, p)
    /\ DataOk(how, len, n, fits)
    /\ log' = Append(log, [how |-> how, data |-> data, n |-> CountOf(how, len, n), off |-> off, size |-> size])
    /\ nodes' = [x \in DOMAIN nodes \cup {k} |-> IF x = k THEN [chunk |-> Len(log) + 1, page |-> p] ELSE nodes[x]]
    /\ UNCHANGED <<cfg, phase, final>>

(* key -> [chunk, page] of a sequence of additions; halving keeps the recursion shallow *)
RECURSIVE SeqAsNodes(_, _)
SeqAsNodes(as, before) ==
    IF Len(as) = 0 THEN <<>>
    ELSE IF Len(as) = 1 THEN as[1].k :> [chunk |-> before + 1, page |-> as[1].p]
    ELSE LET h == Len(as) \div 2 IN SeqAsNodes(SubSeq(as, 1, h), before) @@ SeqAsNodes(SubSeq(as, h + 1, Len(as)), before + h)
(* many additions of different new keys at once: the same as one after the other *)
AddMany(as) ==
    /\ phase = "open"
    /\ TRUE = \A i \in 1..Len(as) : KeysOk(as[i].k, as[i].p) /\ DataOk(as[i].how, as[i].len, as[i].n, as[i].fits)
    /\ LET ks == {as[i].k : i \in 1..Len(as)}
           new == [i \in 1..Len(as) |-> [how |-> as[i].how, data |-> as[i].data, n |-> CountOf(as[i].how, as[i].len, as[i].n), off |-> as[i].off, size |-> as[i].size]]
       IN /\ Cardinality(ks) = Len(as) /\ ks \cap DOMAIN nodes = {}
          /\ log' = log \o new
          /\ nodes' = SeqAsNodes(as, Len(log)) @@ nodes
    /\ UNCHANGED <<cfg, phase, final>>

AddRefused(k, p, how, len, n, fits) ==
    /\ phase # "open" \/ ~KeysOk(k, p) \/ ~DataOk(how, len, n, fits)
    /\ UNCHANGED wvars

MoveOk(k, p) == IsValidKey(k) /\ IsValidKey(p) /\ k \in DOMAIN nodes /\ BelowOrSelf(k, p)

(* moving a node after completion may be accepted, but never reaches the file *)
Move(k, p) ==
    /\ phase # "gone"
    /\ MoveOk(k, p)
    /\ nodes' = [nodes EXCEPT ![k].page = p]
    /\ UNCHANGED <<cfg, phase, log, final>>
MoveRefused(k, p) ==
    /\ ~MoveOk(k, p) \/ phase # "open"
    /\ UNCHANGED wvars

Content == [k \in DOMAIN nodes |-> [page |-> nodes[k].page, chunk |-> nodes[k].chunk, off |-> log[nodes[k].chunk].off, size |-> log[nodes[k].chunk].size, n |-> log[nodes[k].chunk].n]]

Complete == final' = [nodes |-> Content, log |-> log]
Close ==
    /\ phase # "gone"
    /\ phase' = "closed"
    /\ IF phase = "open" THEN Complete ELSE UNCHANGED final
    /\ UNCHANGED <<cfg, log, nodes>>
Destroy ==
    /\ phase # "gone"
    /\ phase' = "gone"
    /\ IF phase = "open" THEN Complete ELSE UNCHANGED final
    /\ UNCHANGED <<cfg, log, nodes>>

(* ---- what a lookup on the writer answers *)
Known(k) == k \in DOMAIN nodes

(* ---- what the completed file is *)
HeadOk(f) == HeaderOk(f, cfg) /\ VlrsOk(f, cfg) /\ LayoutOk(f) /\ OtherEvlrsOk(f, cfg)
FileOk(f, part) ==
    /\ final # <<>>
    /\ CASE part = "head" -> HeadOk(f)
         [] part = "chunks" -> ChunksOk(f, final.log)
         [] part = "hier" -> HierarchyOk(f, final.nodes)

(* ---- design properties, checked exhaustively on small constants *)
PagesAreAncestors == \A k \in DOMAIN nodes : BelowOrSelf(k, nodes[k].page) /\ InOctree(k)
(* a node's data is that of the last addition of its key *)
ChunksExist == \A k \in DOMAIN nodes : nodes[k].chunk \in 1..Len(log)
DistinctChunks == \A j, k \in DOMAIN nodes : nodes[j].chunk = nodes[k].chunk => j = k
(* the pages form a tree: every page but the root has a nearest ancestor page *)
PageTree == LET P == ExpectedPages(nodes) IN \A p \in P \ {Root} : Nearest(p, P) \in P
Frozen == [][final # <<>> => final' = final]_wvars
NeverReopened == [][phase # "open" => phase' # "open" /\ log' = log]_wvars
=============================================================================
