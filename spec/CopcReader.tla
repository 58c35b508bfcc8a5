------------------------------ MODULE CopcReader ------------------------------
(* What a reader answers about a file.  The answers are those of the complete    *)
(* file, as an independent parser sees it (record f of LasFile): no answer        *)
(* depends on earlier queries.  Damaged files may be refused with an error at     *)
(* any query that needs more than what is intact, and must be refused where the   *)
(* damage is needed for the answer.                                               *)
EXTENDS LasFile

(* ------------------------------------------------------------------- opening *)
HasV(f, user, id) == \E i \in 1..Len(f.vlrs) : f.vlrs[i].user = user /\ f.vlrs[i].id = id
HasE(f, user, id) == \E i \in 1..Len(f.evlrs) : f.evlrs[i].user = user /\ f.evlrs[i].id = id
HeaderReadable(h) ==
    /\ h.magic = "LASF" /\ h.major = 1 /\ h.minor = 4 /\ h.hsize = 375
    /\ h.compressed /\ h.wktbit
    /\ h.fmt \in {6, 7, 8} /\ h.reclen >= BaseSize(h.fmt)
(* f.ebtypes: data types of the described extra bytes; f.extcount, f.statcount:    *)
(* number of pairs in the extents records (-1: no such record)                    *)
KnownTypes(f) == \A i \in 1..Len(f.ebtypes) : f.ebtypes[i] \in 0..30
RecordsReadable(f) ==
    /\ f.extcount \in {-1, Dimensions(f.hdr.fmt) + Len(f.ebtypes)}
    /\ f.extcount # -1 => f.statcount \in {-1, Dimensions(f.hdr.fmt) + Len(f.ebtypes)}
CopcReadable(f) ==
    /\ Len(f.vlrs) > 0 /\ f.vlrs[1].user = "copc" /\ f.vlrs[1].id = 1 /\ f.vlrs[1].len = 160
    /\ HasE(f, "copc", 1000)
    /\ f.hdr.hsize = 375
Openable(f, copc) == HeaderReadable(f.hdr) /\ RecordsReadable(f) /\ (copc => CopcReadable(f))

(* ----------------------------------------------------------------- hierarchy *)
EntryOk(e) == IsValidKey(e.key) /\ e.n >= -1 /\ e.size >= 0
InRecord(f, off, size) ==
    \E i \in HierRecords(f) : /\ off >= f.evlrs[i].off + 60 /\ off + size <= f.evlrs[i].off + 60 + f.evlrs[i].len
                              /\ (off - f.evlrs[i].off - 60) % 32 = 0 /\ size % 32 = 0
(* fine: can be read; bad: can't; odd: not where pages have to be                 *)
PageKind(f, off, size) ==
    IF off < 0 \/ off >= f.len \/ size > f.len \/ off + size > f.len THEN (IF size = 0 /\ off >= 0 THEN "odd" ELSE "bad")
    ELSE IF ~InRecord(f, off, size) THEN "odd"
    ELSE IF \A i \in 1..Len(PageEntries(f, off, size)) : EntryOk(PageEntries(f, off, size)[i]) THEN "fine" ELSE "bad"
RECURSIVE Tour(_, _, _, _)
Tour(f, todo, seen, fuel) ==
    IF todo = <<>> \/ fuel = 0 THEN seen
    ELSE LET p == Head(todo)
             kind == PageKind(f, p.off, p.size)
             es == IF kind = "fine" THEN PageEntries(f, p.off, p.size) ELSE <<>>
             subs == SelectSeq(es, LAMBDA e : e.n = -1)
         IN Tour(f, Tail(todo) \o [i \in 1..Len(subs) |-> [key |-> subs[i].key, off |-> subs[i].off, size |-> subs[i].size]],
                 Append(seen, [key |-> p.key, kind |-> kind, entries |-> SelectSeq(es, LAMBDA e : e.n # -1)]), fuel - 1)

(* the file's content: pages in the order they are found, all listed nodes         *)
Content(f) ==
    LET t == Tour(f, <<[key |-> Root, off |-> f.info.rootoff, size |-> f.info.rootsize]>>, <<>>, 2 * Len(f.evlrs) + f.npages + 2)
        keys == [i \in 1..Len(t) |-> t[i].key]
        nodes == UNION {{[key |-> e.key, page |-> t[i].key, off |-> e.off, size |-> e.size, n |-> e.n] : e \in RangeOf(t[i].entries)} : i \in 1..Len(t)}
    IN [pages |-> RangeOf(keys),
        bad |-> {t[i].key : i \in {j \in 1..Len(t) : t[j].kind = "bad"}},
        odd |-> \E i \in 1..Len(t) : t[i].kind = "odd",
        (* some page is referenced twice *)
        twice |-> Cardinality(RangeOf(keys)) # Len(t),
        (* some node is listed twice *)
        unclear |-> Cardinality({n.key : n \in nodes}) # Sum([i \in 1..Len(t) |-> Len(t[i].entries)]),
        nodes |-> nodes]
Whole(c) == c.bad = {} /\ ~c.odd /\ ~c.twice /\ ~c.unclear
Clear(c) == ~c.odd /\ ~c.twice /\ ~c.unclear
KeysOf(c) == {n.key : n \in c.nodes}
NodeAt(c, k) == CHOOSE n \in c.nodes : n.key = k
AboveBad(c, k) == \E p \in c.bad : BelowOrSelf(k, p)
BadBelow(c, k) == \E p \in c.bad : BelowOrSelf(p, k)

(* -------------------------------------------------------------------- answers *)
(* node = <<>> or <<[key, page, off, size, n]>> *)
FindOk(c, k, node) ==
    IF ~Clear(c) THEN \A i \in 1..Len(node) : c.odd \/ node[i] \in c.nodes
    ELSE IF k \in KeysOf(c) THEN node = <<NodeAt(c, k)>>
    ELSE node = <<>> /\ ~AboveBad(c, k)
AllOk(c, nodes) ==
    /\ c.bad = {} /\ ~c.twice
    /\ Clear(c) => /\ Len(nodes) = Cardinality(c.nodes)
                   /\ RangeOf(nodes) = c.nodes
PagesAre(c, ps) ==
    /\ c.bad = {} /\ ~c.twice
    /\ Clear(c) => Len(ps) = Cardinality(c.pages) /\ RangeOf(ps) = c.pages
KidsOf(c, k) == IF k \in c.pages THEN {n \in c.nodes : BelowOrSelf(n.page, k)} ELSE {n \in c.nodes : n.key = k}
KidsOk(c, k, nodes) ==
    IF ~Clear(c) THEN c.odd \/ RangeOf(nodes) \subseteq c.nodes
    ELSE /\ IF k \in c.pages THEN ~BadBelow(c, k) ELSE (k \in KeysOf(c) \/ ~AboveBad(c, k))
         /\ Len(nodes) = Cardinality(KidsOf(c, k))
         /\ RangeOf(nodes) = KidsOf(c, k)
=============================================================================
