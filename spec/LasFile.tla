------------------------------- MODULE LasFile -------------------------------
(* What a finished LAZ or COPC file has to look like, in terms of the parts    *)
(* that an independent parser finds in it.                                     *)
(*                                                                             *)
(* f.hdr    header fields            f.vlrs   records before the point data    *)
(* f.chunks compressed chunks        f.table  the chunk table                  *)
(* f.evlrs  records after the point data; hierarchy records carry their        *)
(*          entries [key, off, size, n] (n = -1 marks a reference to a page)   *)
(* f.info   where the root page of the hierarchy is said to be                 *)
EXTENDS Keys

BaseSize(fmt) == CASE fmt = 6 -> 30 [] fmt = 7 -> 36 [] fmt = 8 -> 38 [] OTHER -> -1
Dimensions(fmt) == CASE fmt = 6 -> 14 [] fmt = 7 -> 17 [] fmt = 8 -> 18 [] OTHER -> -1

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* sums beyond 32 bits, as <<high, low>> in base 65536 *)
Wide(n) == <<n \div 65536, n % 65536>>
Carry(hi, lo) == <<hi + (lo \div 65536), lo % 65536>>
RECURSIVE SumRange(_, _, _)
SumRange(s, a, b) ==
    IF a > b THEN <<0, 0>>
    ELSE IF a = b THEN Wide(s[a])
    ELSE LET m == (a + b) \div 2
             p == SumRange(s, a, m)
             q == SumRange(s, m + 1, b)
         IN Carry(p[1] + q[1], p[2] + q[2])
SumWide(s) == SumRange(s, 1, Len(s))

(* c: [copc, fmt, ebitems, ebbytes, ext, wkt]  the configuration a file was    *)
(* written with; wkt is the number of bytes of the WKT text                    *)
RecordLength(c) == BaseSize(c.fmt) + c.ebbytes
LazItems(c) == 1 + (IF c.fmt = 6 THEN 0 ELSE 1) + (IF c.ebbytes > 0 THEN 1 ELSE 0)

(* the records in front of the point data, with their payload sizes *)
Vlrs(c) ==
    (IF c.copc THEN {<<"copc", 1, 160>>, <<"copc", 10000, 16 * (Dimensions(c.fmt) + c.ebitems)>>} ELSE {})
    \cup (IF c.copc /\ c.ext THEN {<<"rock_robotic", 10001, 16 * (Dimensions(c.fmt) + c.ebitems)>>} ELSE {})
    \cup (IF c.ebitems > 0 THEN {<<"LASF_Spec", 4, 192 * c.ebitems>>} ELSE {})
    \cup {<<"laszip encoded", 22204, 34 + 6 * LazItems(c)>>}

HeaderOk(f, c) ==
    LET h == f.hdr IN
    /\ h.magic = "LASF" /\ h.major = 1 /\ h.minor = 4 /\ h.hsize = 375
    /\ h.fmt = c.fmt /\ h.compressed /\ h.reclen = RecordLength(c)
    /\ h.wktbit /\ h.waveoff = 0
    /\ h.count = SumWide([i \in 1..Len(f.chunks) |-> f.chunks[i].n])
    /\ h.legacy \in {<<0, 0>>, h.count}

VlrsOk(f, c) ==
    /\ {<<f.vlrs[i].user, f.vlrs[i].id, f.vlrs[i].len>> : i \in 1..Len(f.vlrs)} = Vlrs(c)
    /\ Len(f.vlrs) = Cardinality(Vlrs(c))
    /\ c.copc => f.vlrs[1].user = "copc" /\ f.vlrs[1].id = 1 /\ f.vlrs[1].off = 375
    /\ f.vlrend <= f.hdr.pointoff

(* nothing overlaps, nothing is left over *)
LayoutOk(f) ==
    /\ f.table.version = 0
    /\ f.chunkend <= f.table.at
    /\ f.table.end <= f.hdr.evlroff
    /\ f.evlrend = f.len

(* ---------------------------------------------------------------- hierarchy *)
HierRecords(f) == {i \in 1..Len(f.evlrs) : f.evlrs[i].user = "copc" /\ f.evlrs[i].id = 1000}
HasPage(f, off, size) ==
    \E i \in HierRecords(f) : /\ off >= f.evlrs[i].off + 60 /\ off + size <= f.evlrs[i].off + 60 + f.evlrs[i].len
                              /\ (off - f.evlrs[i].off - 60) % 32 = 0 /\ size % 32 = 0
PageEntries(f, off, size) ==
    LET i == CHOOSE i \in HierRecords(f) : off >= f.evlrs[i].off + 60 /\ off + size <= f.evlrs[i].off + 60 + f.evlrs[i].len
        b == (off - f.evlrs[i].off - 60) \div 32
    IN SubSeq(f.evlrs[i].entries, b + 1, b + size \div 32)

(* all [key, off, size] of pages reachable from the given ones; every reachable  *)
(* page must lie in a hierarchy record.  fuel bounds the walk (cycles).          *)
RECURSIVE Walk(_, _, _, _)
Walk(f, todo, seen, fuel) ==
    IF todo = <<>> THEN [ok |-> TRUE, pages |-> seen]
    ELSE IF fuel = 0 THEN [ok |-> FALSE, pages |-> seen]
    ELSE LET p == Head(todo) IN
         IF ~HasPage(f, p.off, p.size) THEN [ok |-> FALSE, pages |-> seen]
         ELSE LET es == PageEntries(f, p.off, p.size)
                  subs == SelectSeq(es, LAMBDA e : e.n = -1)
              IN Walk(f, Tail(todo) \o [i \in 1..Len(subs) |-> [key |-> subs[i].key, off |-> subs[i].off, size |-> subs[i].size, owner |-> p.key]],
                      Append(seen, [key |-> p.key, off |-> p.off, size |-> p.size, owner |-> p.owner, entries |-> es]), fuel - 1)

Pages(f) == Walk(f, <<[key |-> Root, off |-> f.info.rootoff, size |-> f.info.rootsize, owner |-> NoKey]>>, <<>>, Cardinality(HierRecords(f)) + 1)

(* h = [nodes |-> function key -> [page, off, size, n]]                          *)
ExpectedPages(nodes) == {Root} \cup {nodes[k].page : k \in DOMAIN nodes}

HierarchyOk(f, nodes) ==
    LET w == Pages(f)
        P == ExpectedPages(nodes)
        pages == w.pages
        keysOf(i) == SelectSeq(pages[i].entries, LAMBDA e : e.n # -1)
    IN /\ w.ok
       (* exactly the expected pages, each once, each referenced by its nearest ancestor page *)
       /\ Len(pages) = Cardinality(P)
       /\ {<<pages[i].key, pages[i].owner>> : i \in 1..Len(pages)} = {<<p, IF p = Root THEN NoKey ELSE Nearest(p, P)>> : p \in P}
       /\ Cardinality(HierRecords(f)) = Cardinality(P)
       (* each page owns its record alone: no two pages share bytes *)
       /\ \A i, j \in 1..Len(pages) : i < j => pages[i].off # pages[j].off \/ pages[i].size = 0 \/ pages[j].size = 0
       (* exactly the expected nodes, each once, in its page, with its position, size and count *)
       /\ Sum([i \in 1..Len(pages) |-> Len(keysOf(i))]) = Cardinality(DOMAIN nodes)
       /\ UNION {{<<pages[i].key, e.key, e.off, e.size, e.n>> : e \in RangeOf(keysOf(i))} : i \in 1..Len(pages)}
            = {<<nodes[k].page, k, nodes[k].off, nodes[k].size, nodes[k].n>> : k \in DOMAIN nodes}

(* chunks: expected sequence of [how, data, n, off, size]; a chunk given compressed *)
(* is stored as it is, any other decompresses to the data that was given            *)
ChunksOk(f, log) ==
    /\ Len(f.chunks) = Len(log)
    /\ \A i \in 1..Len(log) :
        /\ f.chunks[i].n = log[i].n
        /\ f.chunks[i].off = log[i].off
        /\ f.chunks[i].size = log[i].size
        /\ IF log[i].how = "comp" THEN f.chunks[i].raw = log[i].data.raw ELSE f.chunks[i].dec = log[i].data.plain

OtherEvlrsOk(f, c) ==
    LET other == (1..Len(f.evlrs)) \ HierRecords(f)
    IN /\ {<<f.evlrs[i].user, f.evlrs[i].id, f.evlrs[i].len>> : i \in other} = (IF c.wkt > 0 THEN {<<"LASF_Projection", 2112, c.wkt>>} ELSE {})
       /\ Cardinality(other) = (IF c.wkt > 0 THEN 1 ELSE 0)
       /\ ~c.copc => HierRecords(f) = {}
=============================================================================
