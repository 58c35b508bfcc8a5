----------------------------- MODULE ConfigStore -----------------------------
(* Configurations, headers and extents as values: every object has its own      *)
(* value, derived objects start as copies, and each operation changes one       *)
(* object only. Writers snapshot their configuration into the file on Close,    *)
(* readers give it back.                                                        *)
EXTENDS Extents

VARIABLES objs,   (* name -> [kind, h, wkt, eb, info, ext]                      *)
          pens,   (* open and finished writers: name -> [n, open]               *)
          files   (* finished files: name -> [v, n]                             *)
cvars == <<objs, pens, files>>

(* kinds: cw, lw configurations of writers (COPC, LAZ); cr, lr configurations of *)
(* readers; wr, lwr configurations owned by an open writer; hdr a header alone;  *)
(* ext extents alone                                                             *)
CopcKinds == {"cw", "cr", "wr"}
LazKinds == {"lw", "lr", "lwr"}
ConfigKinds == CopcKinds \cup LazKinds
Mutable == {"cw", "wr", "lw", "lwr"}
Kind(n) == objs[n].kind
Live(n) == n \in DOMAIN objs

EbSize == <<1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2, 2, 4, 4, 8, 8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 24>>
EbItemBytes(e) == IF e.t = 0 THEN e.o ELSE EbSize[e.t]
EbBytes(eb) == Sum([i \in 1..Len(eb) |-> EbItemBytes(eb[i])])
EbKnown(eb) == \A i \in 1..Len(eb) : eb[i].t <= 30
EbOf(h) == h.reclen - BaseSize(h.fmt)

NoPos == <<0, 0, 0, 0, 0>>
NoInfo == [cx |-> "z", cy |-> "z", cz |-> "z", half |-> "z", spacing |-> "z", root |-> <<0, 0>>]
NoExt == [fmt |-> 0, on |-> FALSE, items |-> <<>>]
Header(fmt, reclen, scale, offset, copc) ==
    [fmt |-> fmt, reclen |-> reclen, scale |-> scale, offset |-> offset, min |-> "zero", max |-> "zero", guid |-> <<>>,
     sys |-> <<>>, gen |-> <<>>, source |-> 0, genc |-> 0, day |-> 0, year |-> 0, byret |-> "r0", copc |-> copc, pos |-> NoPos]
TextFields == {"guid", "sys", "gen"}
TextLimit(f) == IF f = "guid" THEN 16 ELSE 32
SetBit(x, b) == IF (x \div b) % 2 = 1 THEN x ELSE x + b

Value(kind, h, wkt, eb, info, ext) == [kind |-> kind, h |-> h, wkt |-> wkt, eb |-> eb, info |-> info, ext |-> ext]
AsCopc(v, kind) == [v EXCEPT !.kind = kind, !.h.copc = TRUE]
AsLaz(v, kind) == Value(kind, [v.h EXCEPT !.copc = FALSE], v.wkt, v.eb, NoInfo, NoExt)

Put(n, v) == /\ objs' = [x \in DOMAIN objs \cup {n} |-> IF x = n THEN v ELSE objs[x]]
             /\ UNCHANGED <<pens, files>>
Nothing == UNCHANGED cvars

CInit == objs = [x \in {} |-> NoInfo] /\ pens = [x \in {} |-> NoInfo] /\ files = [x \in {} |-> NoInfo]

(* ------------------------------------------------------------- construction *)
NewOk(fmt, eb) == Supported(fmt) /\ EbKnown(eb)
New(n, kind, fmt, scale, offset, wkt, eb, on) ==
    /\ NewOk(fmt, eb)
    /\ Put(n, Value(kind, Header(fmt, BaseSize(fmt) + EbBytes(eb), scale, offset, kind = "cw"), wkt, eb, NoInfo,
                    IF kind = "cw" THEN ExtNew(fmt, Len(eb), on) ELSE NoExt))
NewRefused(fmt, eb) == ~NewOk(fmt, eb) /\ Nothing

(* any configuration can become a LAZ one; a COPC one has to come from a COPC one, or be completed *)
Copy(n, kind, from) ==
    /\ Live(from) /\ Kind(from) \in ConfigKinds
    /\ kind \in {"cw", "cr"} => Kind(from) \in CopcKinds
    /\ Put(n, IF kind \in {"cw", "cr"} THEN AsCopc(objs[from], kind) ELSE AsLaz(objs[from], kind))
Parts(n, kind, hdr, ext, info, wkt, eb) ==
    Put(n, IF kind = "cw" THEN AsCopc(Value(kind, objs[hdr].h, wkt, eb, info, objs[ext].ext), kind)
           ELSE AsLaz(Value(kind, objs[hdr].h, wkt, eb, NoInfo, NoExt), kind))
Completed(n, laz, ext, info) ==
    Put(n, AsCopc(Value("cw", objs[laz].h, objs[laz].wkt, objs[laz].eb, info, objs[ext].ext), "cw"))
Assign(n, from) ==
    /\ Live(n) /\ Live(from)
    /\ (Kind(n) = Kind(from) \/ {Kind(n), Kind(from)} \subseteq {"cw", "wr"} \/ {Kind(n), Kind(from)} \subseteq {"lw", "lwr"})
    /\ Put(n, [objs[from] EXCEPT !.kind = Kind(n)])

(* parts *)
NewHeader(n, fmt, reclen, scale, offset, copc) == Put(n, Value("hdr", Header(fmt, reclen, scale, offset, copc), "", <<>>, NoInfo, NoExt))
TakeHeader(n, from) == Live(from) /\ Put(n, Value("hdr", objs[from].h, "", <<>>, NoInfo, NoExt))
ModHeader(n, from, fmt, reclen, scale, offset) ==
    Put(n, [objs[from] EXCEPT !.h.fmt = fmt, !.h.reclen = reclen, !.h.scale = scale, !.h.offset = offset])
FlagHeader(n, from, copc) == Put(n, [objs[from] EXCEPT !.h.copc = copc])

PutExt(n, x) == Put(n, Value("ext", Header(6, 0, "zero", "zero", FALSE), "", <<>>, NoInfo, x))
NewExtents(n, fmt, neb, on) == Supported(fmt) /\ PutExt(n, ExtNew(fmt, neb, on))
TakeExtents(n, from) == Live(from) /\ Kind(from) \in CopcKinds \cup {"ext"} /\ PutExt(n, objs[from].ext)
DeriveExtents(n, from, fmt, neb, on) == Supported(fmt) /\ PutExt(n, ExtDerive(objs[from].ext, fmt, neb, on))
IntoConfig(n, from) == Put(n, [objs[n] EXCEPT !.ext = objs[from].ext])
ReadExtents(n, ps, fmt, neb, on, stats) ==
    LET x == ExtOfPairs(ps, fmt, on) IN
    /\ PairsOk(ps, fmt, neb)
    /\ IF stats = <<>> THEN PutExt(n, x) ELSE StatsOk(x, stats) /\ PutExt(n, WithStats(x, stats))
ReadExtentsOk(ps, fmt, neb, on, stats) == PairsOk(ps, fmt, neb) /\ (IF stats = <<>> THEN TRUE ELSE on /\ Len(stats) = Len(ps) /\ \A i \in 1..Len(stats) : stats[i][2] >= 0)

(* ------------------------------------------------------------- changing one *)
FieldOk(f, val) == f \in TextFields => Len(val) <= TextLimit(f)
SetField(n, f, val) == FieldOk(f, val) /\ Put(n, [objs[n] EXCEPT !.h[f] = val])
SetFieldRefused(f, val) == ~FieldOk(f, val) /\ Nothing
GpsBit(n) == Put(n, [objs[n] EXCEPT !.h.genc = SetBit(@, 1)])
SetInfo(n, f, val) == Put(n, [objs[n] EXCEPT !.info[f] = val])
ExtSetOk(n, d, val) == IF d = "ExtraBytes" THEN Len(val) = EbCount(objs[n].ext) ELSE HasDim(objs[n].ext.fmt, d)
SetExtent(n, d, val) == /\ ExtSetOk(n, d, val)
                        /\ Put(n, [objs[n] EXCEPT !.ext = IF d = "ExtraBytes" THEN SetEbs(@, val) ELSE SetDim(@, d, val)])
SetExtentRefused(n, d, val) == ~ExtSetOk(n, d, val) /\ Nothing
Drop(n) == /\ objs' = [x \in DOMAIN objs \ {n} |-> objs[x]]
           /\ UNCHANGED <<pens, files>>

(* ------------------------------------------------------------- writers *)
Has(over, f) == f \in DOMAIN over
OverFmt(v, over) == IF Has(over, "fmt") THEN over.fmt ELSE v.h.fmt
OverEb(v, over) == IF Has(over, "eb") THEN over.eb ELSE v.eb
OverOk(v, over) == Supported(OverFmt(v, over)) /\ EbKnown(OverEb(v, over))
Overridden(v, over) ==
    LET fmt == OverFmt(v, over)
        eb == OverEb(v, over)
    IN [v EXCEPT !.h.fmt = fmt,
                 !.h.reclen = BaseSize(fmt) + (IF Has(over, "eb") THEN EbBytes(eb) ELSE EbOf(v.h)),
                 !.h.scale = IF Has(over, "scale") THEN over.scale ELSE @,
                 !.h.offset = IF Has(over, "offset") THEN over.offset ELSE @,
                 !.wkt = IF Has(over, "wkt") THEN over.wkt ELSE @,
                 !.eb = eb,
                 !.ext = IF DOMAIN over = {} THEN @ ELSE ExtDerive(@, fmt, Len(eb), IF Has(over, "on") THEN over.on ELSE @.on)]
(* statistics of other items than before may also start afresh *)
Fresh(v, v2) == [v2 EXCEPT !.ext = SetEbs(@, [i \in 1..Len(v2.eb) |-> Unset])]
OpenValues(v, over) ==
    LET v2 == Overridden(v, over) IN IF v2.eb = v.eb THEN {v2} ELSE {v2, Fresh(v, v2)}

PutPen(w, v) == /\ objs' = [x \in DOMAIN objs \cup {w} |-> IF x = w THEN v ELSE objs[x]]
                /\ pens' = [x \in DOMAIN pens \cup {w} |-> IF x = w THEN [n |-> 0, open |-> TRUE] ELSE pens[x]]
                /\ UNCHANGED files
Open(w, from, over, v) ==
    /\ OverOk(objs[from], over)
    /\ v \in OpenValues(AsCopc(objs[from], "wr"), over)
    /\ PutPen(w, v)
OpenRefused(from, over) == ~OverOk(objs[from], over) /\ Nothing
OpenLaz(w, from) == PutPen(w, AsLaz(objs[from], "lwr"))
Write(w, k) == pens[w].open /\ pens' = [pens EXCEPT ![w].n = @ + k] /\ UNCHANGED <<objs, files>>
(* the writer notes where it put the root page *)
Finish(w, root) ==
    /\ pens[w].open
    /\ pens' = [pens EXCEPT ![w].open = FALSE]
    /\ files' = [x \in DOMAIN files \cup {w} |-> IF x = w THEN [v |-> objs[w], n |-> pens[w].n] ELSE files[x]]
    /\ IF Live(w) /\ Kind(w) = "wr" THEN objs' = [objs EXCEPT ![w].info.root = root] ELSE UNCHANGED objs

(* what an independent reading of the finished file has to find *)
Pad(t, n) == t \o [i \in 1..(n - Len(t)) |-> 0]
IsLaz(w) == files[w].v.kind = "lwr"
MetaOk(w, m) ==
    LET v == files[w].v
        h == v.h
        g == m.h
    IN /\ g.fmt = h.fmt /\ g.reclen = h.reclen /\ g.scale = h.scale /\ g.offset = h.offset /\ g.min = h.min /\ g.max = h.max
       /\ g.guid = Pad(h.guid, 16) /\ g.sys = Pad(h.sys, 32) /\ g.gen = Pad(h.gen, 32)
       /\ g.source = h.source /\ g.genc = SetBit(h.genc, 16) /\ g.day = h.day /\ g.year = h.year /\ g.byret = h.byret
       /\ g.pos[1] = files[w].n
       /\ m.wkt = v.wkt /\ m.eb = v.eb
       /\ IF IsLaz(w) THEN TRUE ELSE
            /\ <<m.info.cx, m.info.cy, m.info.cz, m.info.half, m.info.spacing>> =
               <<v.info.cx, v.info.cy, v.info.cz, v.info.half, v.info.spacing>>
            /\ m.ext = MinMaxPairs(v.ext)
            /\ m.stats = IF v.ext.on THEN StatPairs(v.ext) ELSE <<>>
            /\ m.gps = <<v.ext.items[14][1], v.ext.items[14][2]>>

(* what a reader says about the finished file; the positions are those found in it *)
RECURSIVE Strip(_)
Strip(t) == IF t = <<>> THEN t ELSE IF t[Len(t)] = 0 THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
ReadHeader(h, pos, copc) == [h EXCEPT !.guid = Strip(@), !.sys = Strip(@), !.gen = Strip(@), !.genc = SetBit(@, 16), !.pos = pos, !.copc = copc]
ReadValue(w, kind, pos, copc, root) ==
    LET v == files[w].v IN
    IF kind = "cr" THEN Value("cr", ReadHeader(v.h, pos, TRUE), v.wkt, v.eb, [v.info EXCEPT !.root = root], Stored(v.ext))
    ELSE Value("lr", ReadHeader(v.h, pos, copc), v.wkt, v.eb, NoInfo, NoExt)
Read(n, w, kind, pos, copc, root) ==
    /\ kind = "cr" => ~IsLaz(w)
    /\ Put(n, ReadValue(w, kind, pos, copc, root))

(* ------------------------------------------------------------- properties *)
(* a configuration whose parts fit together *)
Coherent(v) == /\ Supported(v.h.fmt) /\ EbKnown(v.eb) /\ v.h.reclen >= BaseSize(v.h.fmt) + EbBytes(v.eb)
               /\ v.kind \in CopcKinds => v.ext.fmt = v.h.fmt /\ EbCount(v.ext) = Len(v.eb)
               /\ v.kind \in CopcKinds => v.h.copc
               /\ v.kind \in {"lw", "lwr"} => ~v.h.copc
PensCoherent == \A w \in DOMAIN pens : Live(w) => Coherent(objs[w])
(* deriving without changing anything changes nothing *)
Identity == \A n \in DOMAIN objs : Kind(n) \in CopcKinds => Overridden(objs[n], [x \in {} |-> 0]) = objs[n]
(* overriding a setting with its own value changes nothing *)
Idempotent == \A n \in DOMAIN objs : Kind(n) \in CopcKinds /\ Coherent(objs[n]) =>
    LET v == objs[n] IN OpenValues(v, [fmt |-> v.h.fmt, scale |-> v.h.scale, wkt |-> v.wkt, on |-> v.ext.on]) = {v}
(* there and back: what a file keeps is what was configured *)
RoundTrip == \A w \in DOMAIN files : Coherent(files[w].v) =>
    LET v == files[w].v
        r == ReadValue(w, IF IsLaz(w) THEN "lr" ELSE "cr", NoPos, FALSE, <<0, 0>>)
    IN /\ r.h.fmt = v.h.fmt /\ r.h.reclen = v.h.reclen /\ r.eb = v.eb /\ r.wkt = v.wkt
       /\ Pad(r.h.guid, 16) = Pad(v.h.guid, 16)
       /\ IF IsLaz(w) THEN TRUE ELSE MinMaxPairs(r.ext) = MinMaxPairs(v.ext) /\ (v.ext.on => r.ext = v.ext)
Settled == \A w \in DOMAIN pens : ~pens[w].open <=> w \in DOMAIN files
(* each step touches one object at most *)
OneAtATime == [][Cardinality({n \in DOMAIN objs : n \notin DOMAIN objs' \/ objs'[n] # objs[n]}) <= 1]_cvars
FilesFinal == [][\A w \in DOMAIN files : w \in DOMAIN files' /\ files'[w] = files[w]]_cvars
=============================================================================
