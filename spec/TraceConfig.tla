----------------------------- MODULE TraceConfig -----------------------------
(* Recorded uses of configurations, headers and extents have to be behaviours   *)
(* of ConfigStore.                                                              *)
EXTENDS ConfigStore, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tvars == <<cvars, l>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Pure(A) == A /\ UNCHANGED cvars

TInit == CInit /\ l = 1
TBegin == IsEvent("Begin") /\ objs' = [x \in {} |-> 0] /\ pens' = [x \in {} |-> 0] /\ files' = [x \in {} |-> 0]

TNew == IsEvent("New") /\ IF E.ok THEN New(E.n, E.kind, E.fmt, E.scale, E.offset, E.wkt, E.eb, E.on) ELSE NewRefused(E.fmt, E.eb)
TCopy == IsEvent("Copy") /\ E.ok /\ Copy(E.n, E.kind, E.from)
TParts == IsEvent("Parts") /\ E.ok /\ Parts(E.n, E.kind, E.hdr, E.ext, E.info, E.wkt, E.eb)
TCompleted == IsEvent("Completed") /\ E.ok /\ Completed(E.n, E.laz, E.ext, E.info)
TAssign == IsEvent("Assign") /\ E.ok /\ Assign(E.n, E.from)
TNewHeader == IsEvent("NewHeader") /\ E.ok /\ NewHeader(E.n, E.fmt, E.reclen, E.scale, E.offset, E.copc)
TTakeHeader == IsEvent("TakeHeader") /\ E.ok /\ TakeHeader(E.n, E.from)
TModHeader == IsEvent("ModHeader") /\ E.ok /\ ModHeader(E.n, E.from, E.fmt, E.reclen, E.scale, E.offset)
TFlagHeader == IsEvent("FlagHeader") /\ E.ok /\ FlagHeader(E.n, E.from, E.copc)
TNewExtents == IsEvent("NewExtents") /\ IF E.ok THEN NewExtents(E.n, E.fmt, E.neb, E.on) ELSE ~Supported(E.fmt) /\ Nothing
TTakeExtents == IsEvent("TakeExtents") /\ E.ok /\ TakeExtents(E.n, E.from)
TDeriveExtents == IsEvent("DeriveExtents") /\ IF E.ok THEN DeriveExtents(E.n, E.from, E.fmt, E.neb, E.on) ELSE ~Supported(E.fmt) /\ Nothing
TReadExtents == IsEvent("ReadExtents") /\ IF E.ok THEN ReadExtents(E.n, E.ps, E.fmt, E.neb, E.on, E.stats)
                                          ELSE ~ReadExtentsOk(E.ps, E.fmt, E.neb, E.on, E.stats) /\ Nothing
TInto == IsEvent("IntoConfig") /\ E.ok /\ IntoConfig(E.n, E.from)
TSetField == IsEvent("SetField") /\ IF E.ok THEN SetField(E.n, E.f, E.val) ELSE SetFieldRefused(E.f, E.val)
TGpsBit == IsEvent("GpsBit") /\ E.ok /\ GpsBit(E.n)
TSetInfo == IsEvent("SetInfo") /\ E.ok /\ SetInfo(E.n, E.f, E.val)
TSetExtent == IsEvent("SetExtent") /\ IF E.ok THEN SetExtent(E.n, E.d, E.val) ELSE SetExtentRefused(E.n, E.d, E.val)
TDrop == IsEvent("Drop") /\ Drop(E.n)
TOpen == IsEvent("Open") /\ IF E.ok THEN \E v \in OpenValues(AsCopc(objs[E.from], "wr"), E.over) : v = E.v /\ Open(E.n, E.from, E.over, v)
                            ELSE OpenRefused(E.from, E.over)
TOpenLaz == IsEvent("OpenLaz") /\ E.ok /\ OpenLaz(E.n, E.from)
TWrite == IsEvent("Write") /\ E.ok /\ Write(E.w, E.k)
TFinish == IsEvent("Finish") /\ Finish(E.w, E.root)
TFile == IsEvent("File") /\ Pure(MetaOk(E.w, E.m))
TRead == IsEvent("Read") /\ E.ok /\ Read(E.n, E.w, E.kind, E.pos, E.copc, E.root)

(* every live object, as it is now *)
TShow == IsEvent("Show") /\ Pure(DOMAIN E.vals = DOMAIN objs /\ \A n \in DOMAIN objs : objs[n] = E.vals[n])
(* one named dimension *)
TGet == IsEvent("Get") /\ Pure(
    LET x == objs[E.n].ext IN
    /\ E.ok = (E.d = "ExtraBytes" \/ HasDim(x.fmt, E.d))
    /\ IF ~E.ok THEN TRUE ELSE IF E.d = "ExtraBytes" THEN E.val = EbQuads(x) ELSE E.val = x.items[DimIndex(E.d)])
(* comparison of two objects' extra-byte descriptions and of their extents *)
TSame == IsEvent("Same") /\ Pure(
    LET a == objs[E.a] b == objs[E.b] IN
    /\ E.eb = (a.eb = b.eb)
    /\ E.ext = (a.ext.items = b.ext.items))
(* the stored form of extents *)
TPairs == IsEvent("Pairs") /\ Pure(
    LET x == objs[E.n].ext IN
    /\ E.ps = MinMaxPairs(x) /\ E.stats = StatPairs(x)
    /\ E.hdr = <<"copc", 10000, 16 * Len(x.items)>> /\ E.size = 16 * Len(x.items))
TSize == IsEvent("Size") /\ Pure(
    /\ E.ok = Supported(E.fmt)
    /\ E.ok => E.count = Dimensions(E.fmt) + E.neb /\ E.bytes = 16 * E.count)
TExtent == IsEvent("Extent") /\ Pure(
    LET q == CASE Len(E.v) = 2 -> <<E.v[1], E.v[2], 0, One>> [] Len(E.v) = 4 -> E.v [] OTHER -> <<1, 0, 0, 0>> IN
    /\ E.ok = QuadOk(q)
    /\ E.ok => E.out = q)
(* conversion to scaled form and back; values in units of a common small fraction *)
TScale == IsEvent("Scale") /\ Pure(E.back = E.k)
(* with scales 1/den and whole offsets the conversion can be computed: in units of 1/den *)
TScaled == IsEvent("Scaled") /\ Pure(\A i \in 1..3 : E.out[i] = E.k[i] + E.off[i] * E.den[i])
TUnscaled == IsEvent("Unscaled") /\ Pure(\A i \in 1..3 : E.out[i] = E.v[i] - E.off[i] * E.den[i])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
TBounds == IsEvent("Bounds") /\ Pure(
    /\ \A i \in 1..3 : E.min2[i] = (IF E.pt[i] < E.min[i] THEN E.pt[i] ELSE E.min[i])
    /\ \A i \in 1..3 : E.max2[i] = (IF E.pt[i] > E.max[i] THEN E.pt[i] ELSE E.max[i])
    /\ E.span = MaxOf({E.max2[i] - E.min2[i] : i \in 1..3})
    /\ E.box = <<E.min2, E.max2>>)

TNext == TBegin \/ TNew \/ TCopy \/ TParts \/ TCompleted \/ TAssign \/ TNewHeader \/ TTakeHeader \/ TModHeader \/ TFlagHeader \/ TNewExtents
         \/ TTakeExtents \/ TDeriveExtents \/ TReadExtents \/ TInto \/ TSetField \/ TGpsBit \/ TSetInfo \/ TSetExtent \/ TDrop \/ TOpen
         \/ TOpenLaz \/ TWrite \/ TFinish \/ TFile \/ TRead \/ TShow \/ TSame \/ TGet \/ TPairs \/ TSize \/ TExtent \/ TScale \/ TScaled \/ TUnscaled
         \/ TBounds
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
