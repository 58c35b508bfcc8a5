------------------------------ MODULE GenConfig ------------------------------
EXTENDS ConfigStore, TLC, Json
CONSTANTS Depth, Focus
VARIABLES hist, done
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
GInit == CInit /\ hist = <<>> /\ done = FALSE
H(e) == hist' = Append(hist, e) /\ UNCHANGED done
Fresh_ == "o" \o ToString(Len(hist))
Of(ks) == {n \in DOMAIN objs : Kind(n) \in ks}
Chance(p) == Pick(1..100) <= p

Triples == {"zero", "scale0", "v1", "v2", "v3", "v4"}
Scalars == {"z", "d1", "d2", "d3", "d4"}
Wkts == {"", "w1", "w2", "w3"}
Ints == {0, 1, 16, 17, 255, 256, 65535}
Item == [t |-> Pick(1..30), o |-> Pick({0, 0, 1, 31}), tok |-> Pick(1..9)]
Opaque == [t |-> 0, o |-> Pick({0, 1, 5, 255}), tok |-> Pick(1..9)]
Odd == [t |-> Pick({31, 99, 255}), o |-> 0, tok |-> 1]
AnyItem == IF Chance(70) THEN Item ELSE IF Chance(95) THEN Opaque ELSE Odd
AnyEb == LET k == Pick({0, 0, 1, 1, 2, 3}) IN [i \in 1..k |-> AnyItem]
AnyFmt == IF Chance(95) THEN Pick(6..8) ELSE Pick({-1, 0, 5, 9, 70, 127})
Quad == LET a == Pick(-4..4) b == Pick(-4..4) IN <<IF a < b THEN a ELSE b, IF a < b THEN b ELSE a, Pick(-4..4), Pick(0..4)>>
Quads(k) == [i \in 1..k |-> Quad]
Pairs(k) == [i \in 1..k |-> IF Chance(98) THEN (LET q == Quad IN <<q[1], q[2]>>) ELSE <<4, -4>>]
(* (mean, variance) *)
StatsOf(k) == [i \in 1..k |-> IF Chance(99) THEN <<Pick((-4)..4), Pick(0..4)>> ELSE <<0, -1>>]
Text(lim) == LET k == Pick({0, 1, 5, lim - 1, lim, lim, lim + 1}) m == Pick(1..40)
             IN [i \in 1..k |-> IF m = 40 /\ i % 3 = 0 THEN 0 ELSE 64 + ((i * m) % 60)]
AnyInfo == [f \in {"cx", "cy", "cz", "half", "spacing"} |-> Pick(Scalars)] @@ [root |-> <<0, 0>>]
OverFields == {"fmt", "scale", "offset", "wkt", "eb", "on"}
AnyOver(v) ==
    LET fs == IF Chance(25) THEN {} ELSE IF Chance(60) THEN {Pick(OverFields)} ELSE {f \in OverFields : Chance(40)}
    IN [f \in fs |-> CASE f = "fmt" -> AnyFmt
                       [] f = "scale" -> Pick(Triples \ {"zero"})
                       [] f = "offset" -> Pick(Triples)
                       [] f = "wkt" -> Pick(Wkts)
                       [] f = "eb" -> (IF Chance(30) THEN v.eb ELSE AnyEb)
                       [] f = "on" -> Chance(50)]
HFields == {"min", "max", "guid", "sys", "gen", "source", "genc", "day", "year", "byret", "min", "max"}
(* lower bounds are never above upper bounds *)
FieldValue(f) == CASE f = "min" -> Pick({"zero", "n1", "n2", "n3"})
                   [] f = "max" -> Pick({"zero", "scale0", "v1", "p1"})
                   [] f \in TextFields -> Text(TextLimit(f))
                   [] f = "byret" -> Pick({"r0", "r1", "r2"})
                   [] OTHER -> Pick(Ints)

DoNew == \E kind \in {IF Chance(70) THEN "cw" ELSE "lw"}, fmt \in {AnyFmt}, sc \in {Pick(Triples \ {"zero"})}, of \in {Pick(Triples)}, w \in {Pick(Wkts)}, eb \in {AnyEb}, on \in {Chance(50)} :
    /\ New(Fresh_, kind, fmt, sc, of, w, eb, on) \/ NewRefused(fmt, eb)
    /\ H([op |-> "New", n |-> Fresh_, kind |-> kind, fmt |-> fmt, scale |-> sc, offset |-> of, wkt |-> w, eb |-> eb, on |-> on])
DoCopy == \E from \in {Pick(Of(ConfigKinds))} : \E kind \in {IF Kind(from) \in CopcKinds THEN (IF Chance(60) THEN "cw" ELSE Pick({"lw", "cr"})) ELSE "lw"} :
    Copy(Fresh_, kind, from) /\ H([op |-> "Copy", n |-> Fresh_, kind |-> kind, from |-> from])
DoAssign == \E n \in {Pick(Of({"cw", "lw", "ext", "hdr"}))} :
    \E from \in {Pick({m \in DOMAIN objs : Kind(m) = Kind(n)})} :
        /\ Assign(n, from) /\ H([op |-> "Assign", n |-> n, from |-> from])
DoSetH == \E n \in {Pick(Of(Mutable \cup {"hdr"}))}, f \in {Pick(HFields)} : \E val \in {FieldValue(f)} :
    /\ SetField(n, f, val) \/ SetFieldRefused(f, val)
    /\ H([op |-> "SetField", n |-> n, f |-> f, val |-> val])
DoGps == \E n \in {Pick(Of(Mutable \cup {"hdr"}))} : GpsBit(n) /\ H([op |-> "GpsBit", n |-> n])
DoSetInfo == \E n \in {Pick(Of({"cw", "wr"}))}, f \in {Pick({"cx", "cy", "cz", "half", "spacing"})}, val \in {Pick(Scalars)} :
    SetInfo(n, f, val) /\ H([op |-> "SetInfo", n |-> n, f |-> f, val |-> val])
DoSetExt == \E n \in {Pick(Of({"cw", "wr", "ext"}))} :
    \E d \in {IF EbCount(objs[n].ext) > 0 /\ Chance(40) THEN "ExtraBytes" ELSE Pick({DimNames[i] : i \in 1..18} \cup {"ExtraBytes"})} :
    \E val \in {IF d = "ExtraBytes" THEN Quads(IF Chance(85) THEN EbCount(objs[n].ext) ELSE Pick(0..3)) ELSE Quad} :
    /\ SetExtent(n, d, val) \/ SetExtentRefused(n, d, val)
    /\ H([op |-> "SetExtent", n |-> n, d |-> d, val |-> val])
Ready(n) == Coherent(objs[n])
DoOpen == \E from \in {Pick({n \in Of({"cw"}) : Ready(n)})} : \E over \in {AnyOver(objs[from])} :
    /\ \/ \E v \in {IF OverOk(objs[from], over) THEN Overridden(AsCopc(objs[from], "wr"), over) ELSE objs[from]} : Open(Fresh_, from, over, v)
       \/ OpenRefused(from, over)
    /\ H([op |-> "Open", n |-> Fresh_, from |-> from, over |-> over])
DoOpenLaz == \E from \in {Pick({n \in Of({"lw"}) : Ready(n)})} : OpenLaz(Fresh_, from) /\ H([op |-> "OpenLaz", n |-> Fresh_, from |-> from])
OpenPens == {w \in DOMAIN pens : pens[w].open}
DoWrite == \E w \in {Pick(OpenPens)}, k \in {Pick(1..3)} : Write(w, k) /\ H([op |-> "Write", w |-> w, k |-> k])
DoFinish == \E w \in {Pick(OpenPens)} : Finish(w, <<0, 0>>) /\ H([op |-> "Finish", w |-> w])
DoRead == \E w \in {Pick(DOMAIN files)} : \E kind \in {IF IsLaz(w) THEN "lr" ELSE IF Chance(70) THEN "cr" ELSE "lr"} :
    Read(Fresh_, w, kind, NoPos, TRUE, <<0, 0>>) /\ H([op |-> "Read", n |-> Fresh_, w |-> w, kind |-> kind])
DoHeader == \E fmt \in {Pick(6..8)}, extra \in {Pick({0, 1, 7, 300})}, sc \in {Pick(Triples \ {"zero"})}, of \in {Pick(Triples)}, copc \in {Chance(50)} :
    /\ NewHeader(Fresh_, fmt, BaseSize(fmt) + extra, sc, of, copc)
    /\ H([op |-> "NewHeader", n |-> Fresh_, fmt |-> fmt, reclen |-> BaseSize(fmt) + extra, scale |-> sc, offset |-> of, copc |-> copc])
DoTakeHeader == \E from \in {Pick(Of(ConfigKinds \cup {"hdr"}))} : TakeHeader(Fresh_, from) /\ H([op |-> "TakeHeader", n |-> Fresh_, from |-> from])
DoModHeader == \E from \in {Pick(Of({"hdr"}))}, fmt \in {Pick(6..8)}, extra \in {Pick({0, 2, 1000})}, sc \in {Pick(Triples \ {"zero"})}, of \in {Pick(Triples)} :
    /\ ModHeader(Fresh_, from, fmt, BaseSize(fmt) + extra, sc, of)
    /\ H([op |-> "ModHeader", n |-> Fresh_, from |-> from, fmt |-> fmt, reclen |-> BaseSize(fmt) + extra, scale |-> sc, offset |-> of])
DoFlag == \E from \in {Pick(Of({"hdr"}))}, copc \in {Chance(50)} : FlagHeader(Fresh_, from, copc) /\ H([op |-> "FlagHeader", n |-> Fresh_, from |-> from, copc |-> copc])
DoNewExt == \E fmt \in {AnyFmt}, k \in {Pick({0, 0, 1, 2, 3, 40})}, on \in {Chance(50)} :
    /\ NewExtents(Fresh_, fmt, k, on) \/ (~Supported(fmt) /\ Nothing)
    /\ H([op |-> "NewExtents", n |-> Fresh_, fmt |-> fmt, neb |-> k, on |-> on])
DoTakeExt == \E from \in {Pick(Of(CopcKinds \cup {"ext"}))} : TakeExtents(Fresh_, from) /\ H([op |-> "TakeExtents", n |-> Fresh_, from |-> from])
DoDeriveExt == \E from \in {Pick(Of({"ext"}))}, fmt \in {AnyFmt}, same \in {Chance(60)}, on \in {Chance(50)} :
    \E k \in {IF same THEN EbCount(objs[from].ext) ELSE Pick(0..3)} :
    /\ DeriveExtents(Fresh_, from, fmt, k, on) \/ (~Supported(fmt) /\ Nothing)
    /\ H([op |-> "DeriveExtents", n |-> Fresh_, from |-> from, fmt |-> fmt, neb |-> k, on |-> on])
DoReadExt == \E fmt \in {Pick(6..8)}, k \in {Pick(0..3)}, on \in {Chance(60)}, st \in {Chance(50)}, off \in {Pick({0, 0, 0, 0, 1, -1})} :
    \E ps \in {Pairs(Dimensions(fmt) + k + off)}, ss \in {IF st THEN StatsOf(Dimensions(fmt) + k + (IF Chance(90) THEN 0 ELSE 1)) ELSE <<>>} :
    /\ ReadExtents(Fresh_, ps, fmt, k, on, ss) \/ (~ReadExtentsOk(ps, fmt, k, on, ss) /\ Nothing)
    /\ H([op |-> "ReadExtents", n |-> Fresh_, ps |-> ps, fmt |-> fmt, neb |-> k, on |-> on, stats |-> ss])
Takers == {n \in Of({"cw"}) : \E m \in Of({"ext"}) : objs[m].ext.fmt = objs[n].h.fmt /\ Len(objs[m].ext.items) = Len(objs[n].ext.items)}
DoInto == \E n \in {Pick(Takers)} :
    \E from \in {Pick({m \in Of({"ext"}) : objs[m].ext.fmt = objs[n].h.fmt /\ Len(objs[m].ext.items) = Len(objs[n].ext.items)})} :
    IntoConfig(n, from) /\ H([op |-> "IntoConfig", n |-> n, from |-> from])
Fitting(h) == {m \in Of({"ext"}) : objs[m].ext.fmt = h.fmt}
PartsEb(h, x) ==
    LET k == EbCount(x) IN IF k = 0 \/ EbOf(h) = 0 THEN [i \in 1..k |-> [t |-> 0, o |-> 0, tok |-> 1]]
    ELSE [i \in 1..k |-> IF i = 1 THEN [t |-> 0, o |-> (IF EbOf(h) > 255 THEN 255 ELSE IF Chance(50) THEN EbOf(h) ELSE 1), tok |-> 2] ELSE [t |-> 0, o |-> 0, tok |-> 3]]
DoParts == \E hdr \in {Pick({m \in Of({"hdr"}) : Fitting(objs[m].h) # {}})} : \E ext \in {Pick(Fitting(objs[hdr].h))} :
    \E info \in {AnyInfo}, w \in {Pick(Wkts)}, eb \in {PartsEb(objs[hdr].h, objs[ext].ext)} :
    /\ Parts(Fresh_, "cw", hdr, ext, info, w, eb)
    /\ H([op |-> "Parts", n |-> Fresh_, kind |-> "cw", hdr |-> hdr, ext |-> ext, info |-> info, wkt |-> w, eb |-> eb])
DoLazParts == \E hdr \in {Pick(Of({"hdr"}))}, w \in {Pick(Wkts)} : \E eb \in {PartsEb(objs[hdr].h, ExtNew(6, Pick(0..2), FALSE))} :
    /\ Parts(Fresh_, "lw", hdr, hdr, NoInfo, w, eb)
    /\ H([op |-> "Parts", n |-> Fresh_, kind |-> "lw", hdr |-> hdr, ext |-> hdr, info |-> NoInfo, wkt |-> w, eb |-> eb])
LazFit(v) == {m \in Fitting(v.h) : EbCount(objs[m].ext) = Len(v.eb)}
DoCompleted == \E laz \in {Pick({m \in Of({"lw"}) : LazFit(objs[m]) # {}})} : \E ext \in {Pick(LazFit(objs[laz]))}, info \in {AnyInfo} :
    /\ Completed(Fresh_, laz, ext, info) /\ H([op |-> "Completed", n |-> Fresh_, laz |-> laz, ext |-> ext, info |-> info])
DoDrop == \E n \in {Pick({m \in DOMAIN objs : m \notin DOMAIN pens \/ ~pens[m].open})} : Drop(n) /\ H([op |-> "Drop", n |-> n])

(* a step is taken only where it is possible; otherwise a new configuration is made *)
Try(S, A) == IF S # {} THEN A ELSE DoNew
Chosen(r) ==
    IF Focus = "ext" THEN
        CASE Of({"ext"}) = {} \/ r <= 8 -> DoNewExt
          [] r <= 50 -> Try(Of({"cw", "wr", "ext"}), DoSetExt)
          [] r <= 62 -> DoDeriveExt
          [] r <= 70 -> DoReadExt
          [] r <= 76 -> DoTakeExt
          [] r <= 82 -> DoAssign
          [] r <= 86 -> DoNew
          [] r <= 92 -> Try({n \in Of({"cw"}) : Ready(n)}, DoOpen)
          [] r <= 96 -> Try(OpenPens, DoFinish)
          [] OTHER -> Try(DOMAIN files, DoRead)
    ELSE IF Focus = "derive" THEN
        CASE Len(hist) < 2 \/ r <= 5 -> DoNew
          [] r <= 9 -> DoHeader
          [] r <= 13 -> DoNewExt
          [] r <= 15 -> DoReadExt
          [] r <= 19 -> Try(Of(ConfigKinds \cup {"hdr"}), DoTakeHeader)
          [] r <= 22 -> Try(Of({"hdr"}), DoModHeader)
          [] r <= 26 -> Try(Of(CopcKinds \cup {"ext"}), DoTakeExt)
          [] r <= 32 -> Try(Of({"ext"}), DoDeriveExt)
          [] r <= 40 -> Try({m \in Of({"hdr"}) : Fitting(objs[m].h) # {}}, DoParts)
          [] r <= 42 -> Try(Of({"hdr"}), DoLazParts)
          [] r <= 45 -> Try({m \in Of({"lw"}) : LazFit(objs[m]) # {}}, DoCompleted)
          [] r <= 49 -> Try(Takers, DoInto)
          [] r <= 54 -> DoCopy
          [] r <= 59 -> Try(Of({"cw", "lw", "ext", "hdr"}), DoAssign)
          [] r <= 72 -> Try({n \in Of({"cw"}) : Ready(n)}, DoOpen)
          [] r <= 74 -> Try({n \in Of({"lw"}) : Ready(n)}, DoOpenLaz)
          [] r <= 82 -> Try(Of(Mutable \cup {"hdr"}), DoSetH)
          [] r <= 84 -> Try(Of({"cw", "wr"}), DoSetInfo)
          [] OTHER -> Try(Of({"cw", "wr", "ext"}), DoSetExt)
    ELSE IF Focus = "file" THEN
        CASE Of({"cw", "lw"}) = {} -> DoNew
          [] r <= 45 -> DoSetH
          [] r <= 48 -> DoGps
          [] r <= 58 -> Try(Of({"cw", "wr"}), DoSetInfo)
          [] r <= 66 -> Try(Of({"cw", "wr", "ext"}), DoSetExt)
          [] r <= 75 -> Try({n \in Of({"cw"}) : Ready(n)}, DoOpen)
          [] r <= 79 -> Try({n \in Of({"lw"}) : Ready(n)}, DoOpenLaz)
          [] r <= 83 -> Try(OpenPens, DoWrite)
          [] r <= 91 -> Try(OpenPens, DoFinish)
          [] r <= 97 -> Try(DOMAIN files, DoRead)
          [] OTHER -> DoCopy
    ELSE
        CASE Of(ConfigKinds) = {} \/ r <= 6 -> DoNew
          [] r <= 20 -> DoCopy
          [] r <= 25 -> Try(Of({"cw", "lw", "ext", "hdr"}), DoAssign)
          [] r <= 37 -> Try(Of(Mutable \cup {"hdr"}), DoSetH)
          [] r <= 39 -> Try(Of(Mutable \cup {"hdr"}), DoGps)
          [] r <= 43 -> Try(Of({"cw", "wr"}), DoSetInfo)
          [] r <= 50 -> Try(Of({"cw", "wr", "ext"}), DoSetExt)
          [] r <= 62 -> Try({n \in Of({"cw"}) : Ready(n)}, DoOpen)
          [] r <= 65 -> Try({n \in Of({"lw"}) : Ready(n)}, DoOpenLaz)
          [] r <= 68 -> Try(OpenPens, DoWrite)
          [] r <= 73 -> Try(OpenPens, DoFinish)
          [] r <= 78 -> Try(DOMAIN files, DoRead)
          [] r <= 80 -> DoHeader
          [] r <= 83 -> Try(Of(ConfigKinds \cup {"hdr"}), DoTakeHeader)
          [] r <= 85 -> Try(Of({"hdr"}), DoModHeader)
          [] r <= 86 -> Try(Of({"hdr"}), DoFlag)
          [] r <= 88 -> DoNewExt
          [] r <= 90 -> Try(Of(CopcKinds \cup {"ext"}), DoTakeExt)
          [] r <= 91 -> Try(Of({"ext"}), DoDeriveExt)
          [] r <= 93 -> Try(Takers, DoInto)
          [] r <= 95 -> Try({m \in Of({"hdr"}) : Fitting(objs[m].h) # {}}, DoParts)
          [] r <= 96 -> Try(Of({"hdr"}), DoLazParts)
          [] r <= 97 -> Try({m \in Of({"lw"}) : LazFit(objs[m]) # {}}, DoCompleted)
          [] OTHER -> Try({m \in DOMAIN objs : m \notin DOMAIN pens \/ ~pens[m].open}, DoDrop)
GStep == Len(hist) < Depth /\ \E r \in {Pick(1..100)} : Chosen(r)
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<cvars, hist>>
GSpec == GInit /\ [][GStep \/ GEnd]_<<cvars, hist, done>>
Emit == done => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
