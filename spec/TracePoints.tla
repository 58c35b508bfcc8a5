------------------------------ MODULE TracePoints ------------------------------
(* Recorded uses of points and collections have to be behaviours of PointStore. *)
EXTENDS PointStore, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<svars, l>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
N == {"p", "q", "r", "s"}
C == {"c", "d", "e"}
Same == UNCHANGED svars
TInit == SInit(N, C) /\ l = 1
TBegin == IsEvent("Begin") /\ heap' = <<>> /\ names' = [n \in N |-> 0] /\ cols' = [c \in C |-> <<>>]

TNew == IsEvent("New") /\ (IF E.ok THEN New(E.n, E.fmt, E.eb, E.zeros) ELSE E.fmt \notin Formats /\ Same)
TCopy == IsEvent("Copy") /\ Copy(E.n, E.m)
TAlias == IsEvent("Alias") /\ Alias(E.n, E.m)
TSet == IsEvent("Set") /\ (IF E.ok THEN Set(E.n, E.a, E.v) ELSE SetRefused(E.n, E.a, E.v))
TConvert == IsEvent("Convert") /\ (IF E.ok THEN ConvertOne(E.n, E.fmt) ELSE E.fmt \notin Formats /\ Same)
TGet == IsEvent("Get") /\ Explains(At(E.n), E.g) /\ heap' = [heap EXCEPT ![names[E.n]] = Settle(@, E.g)] /\ UNCHANGED <<names, cols>>
TEq == /\ IsEvent("Eq") /\ Same /\ E.ne = ~E.v
       /\ (Settled(At(E.a)) /\ Settled(At(E.b))) => /\ (Equal(At(E.a), At(E.b)) => E.v)
                                                     /\ (Unequal(At(E.a), At(E.b)) => ~E.v)

TColNew == IsEvent("ColNew") /\ (IF E.ok THEN ColNew(E.c, E.fmt, E.eb) ELSE E.fmt \notin Formats /\ Same)
TColOf == IsEvent("ColOf") /\ (IF E.ok THEN ColOf(E.c, E.ns) ELSE ~ColOfOk(E.ns) /\ Same)
TAdd == IsEvent("Add") /\ (IF E.ok THEN Add(E.c, E.ns) ELSE ~AddOk(E.c, E.ns) /\ Same)
TAddCol == IsEvent("AddCol") /\ (IF E.ok THEN AddCol(E.c, E.d) ELSE ~AddColOk(E.c, E.d) /\ Same)
TCreate == IsEvent("Create") /\ Create(E.c, E.n, E.zeros)
TTake == IsEvent("Take") /\ E.same /\ Take(E.c, E.i, E.n)
TPut == IsEvent("Put") /\ Replace(E.c, E.i, E.n)
TItem == IsEvent("Item") /\ (IF E.ok THEN E.same /\ Item(E.c, E.i, E.n) ELSE ~IndexOk(Len(Col(E.c).ids), E.i) /\ Same)
TPutItem == IsEvent("PutItem") /\ (IF E.ok THEN PutItem(E.c, E.i, E.n) ELSE ~PutItemOk(E.c, E.i, E.n) /\ Same)
TSlice == IsEvent("Slice") /\ (IF E.ok THEN Slice(E.c, E.d, E.sl) ELSE ~SliceOk(E.sl) /\ Same)
TPutSlice == /\ IsEvent("PutSlice")
             /\ \/ E.ok /\ PutSlice(E.c, E.sl, E.d)
                \/ ~E.ok /\ ~PutSliceOk(E.c, E.sl, E.d) /\ Same
                \/ PutNothing(E.c, E.sl, E.d) /\ Same
(* a member is found; a point equal to none of the members isn't *)
THas == /\ IsEvent("Has") /\ Same /\ E.n = Len(Col(E.c).ids)
        /\ names[E.p] \in Members(E.c) => E.v
        /\ E.v => \E i \in Members(E.c) : i = names[E.p] \/ ~(Settled(heap[i]) /\ Settled(At(E.p))) \/ ~Unequal(heap[i], At(E.p))
TConvertAll == IsEvent("ConvertAll") /\ (IF E.ok THEN ConvertAll(E.c, E.fmt) ELSE E.fmt \notin Formats /\ Same)
TBulk == IsEvent("Bulk") /\ (IF E.ok THEN Bulk(E.c, E.a, E.vs) ELSE (~BulkOk(E.c, E.a, E.vs) \/ E.vs = <<>>) /\ Same)
(* the attribute of every point, in order *)
Has3(a) == a \in {"Red", "Green", "Blue"}
Val(p, a, v) == IF a \in {"X", "Y", "Z"} THEN v = p[a].v ELSE IF Has3(a) THEN HasRgb(p.fmt) /\ v \in p[a] ELSE v = p[a]
TBulkGet == /\ IsEvent("BulkGet") /\ Same
            /\ LET ids == Col(E.c).ids IN
               IF E.ok THEN Len(E.vs) = Len(ids) /\ \A j \in 1..Len(ids) : Val(heap[ids[j]], E.a, E.vs[j])
               ELSE Has3(E.a) /\ ~HasRgb(Col(E.c).fmt)
TCol == /\ IsEvent("Col")
        /\ LET ids == Col(E.c).ids IN
           /\ E.fmt = Col(E.c).fmt /\ E.eb = Col(E.c).eb /\ E.reclen = Base(E.fmt) + E.eb /\ E.n = Len(ids)
           /\ Len(E.pts) = Len(ids)
           /\ \A j \in 1..Len(ids) : Explains(heap[ids[j]], E.pts[j])
           /\ heap' = [i \in 1..Len(heap) |-> IF i \in Members(E.c) THEN Settle(heap[i], E.pts[LastOf(E.c, i)]) ELSE heap[i]]
           /\ UNCHANGED <<names, cols>>
Inside(p, b) == b[1] <= p.X.q /\ p.X.q <= b[4] /\ b[2] <= p.Y.q /\ p.Y.q <= b[5] /\ b[3] <= p.Z.q /\ p.Z.q <= b[6]
TWithin == /\ IsEvent("Within") /\ Same
           /\ LET ids == Col(E.c).ids
                  hits == SelectSeq([j \in 1..Len(ids) |-> j], LAMBDA j : Inside(heap[ids[j]], E.box))
              IN /\ E.all = (Len(hits) = Len(ids))
                 (* by identity: the first place where that point is *)
                 /\ Len(E.idx) = Len(hits)
                 /\ \A j \in 1..Len(hits) : E.idx[j] >= 0 /\ ids[E.idx[j] + 1] = ids[hits[j]]
TOne == IsEvent("Inside") /\ Same /\ E.v = Inside(At(E.n), E.box)

(* ---- records as bytes: what the LAS formats prescribe *)
(* raw: the fields by position; steps and doubles as tokens *)
Shared == {"Intensity", "ReturnsBitField", "FlagsBitField", "Classification", "UserData", "ScanAngle", "PointSourceId", "GPSTime", "ExtraBytes", "Red", "Green", "Blue", "Nir"}
TUnpack == /\ IsEvent("Unpack") /\ Same
           /\ IF E.whole
              THEN /\ E.ok
                   /\ Len(E.pts) = Len(E.raw)
                   /\ \A i \in 1..Len(E.raw) :
                        /\ Explains([NewPoint(E.fmt, E.eb, "") EXCEPT
                                       !.X = [v |-> E.pts[i].X, q |-> 0], !.Y = [v |-> E.pts[i].Y, q |-> 0], !.Z = [v |-> E.pts[i].Z, q |-> 0],
                                       !.Intensity = E.raw[i].Intensity, !.ret = E.raw[i].ReturnsBitField, !.flg = E.raw[i].FlagsBitField,
                                       !.Classification = E.raw[i].Classification, !.UserData = E.raw[i].UserData, !.ang = {E.raw[i].ScanAngle},
                                       !.PointSourceId = E.raw[i].PointSourceId, !.GPSTime = E.raw[i].GPSTime, !.ExtraBytes = E.raw[i].ExtraBytes,
                                       !.Red = {E.raw[i].Red}, !.Green = {E.raw[i].Green}, !.Blue = {E.raw[i].Blue}, !.Nir = {E.raw[i].Nir}], E.pts[i])
                        (* scaled coordinates, in units in the last place *)
                        /\ \A j \in 1..3 : E.pts[i].off[j] \in -E.tol..E.tol
              ELSE ~E.ok
(* and packed again *)
TRepack == IsEvent("Repack") /\ Same /\ E.ok /\ E.same /\ E.out = E.bytes
(* packing: near[i] holds, per axis, the steps nearest to the coordinate that can be stored *)
Among(x, s) == \E i \in 1..Len(s) : s[i] = x
TPack == /\ IsEvent("Pack") /\ Same
         /\ IF E.ok
            THEN /\ E.same
                 /\ Len(E.raw) = Len(E.near)
                 /\ \A i \in 1..Len(E.raw) :
                      /\ \A j \in 1..3 : Among(E.raw[i].steps[j], E.near[i][j])
                      /\ \A a \in Shared : E.raw[i][a] = E.rows[i][a]
            ELSE \E i \in 1..Len(E.near) : \E j \in 1..3 : E.may[i][j]
(* one number *)
TRemove == IsEvent("RemoveScale") /\ Same /\ (IF E.ok THEN Among(E.v, E.near) ELSE E.may)
TApply == IsEvent("ApplyScale") /\ Same /\ E.off \in -E.tol..E.tol
TFormat == /\ IsEvent("FormatInfo") /\ Same
           /\ IF E.fmt \in Formats
              THEN E.base = Base(E.fmt) /\ E.dims = NumDims(E.fmt) /\ E.rgb = HasRgb(E.fmt) /\ E.nir = HasNir(E.fmt)
                   /\ E.size = Base(E.fmt) + E.ebs /\ E.eb = E.len - Base(E.fmt)
              ELSE E.failed = 6
TNext == \/ TBegin \/ TNew \/ TCopy \/ TAlias \/ TSet \/ TConvert \/ TGet \/ TEq
         \/ TColNew \/ TColOf \/ TAdd \/ TAddCol \/ TCreate \/ TTake \/ TPut \/ TItem \/ TPutItem \/ TSlice \/ TPutSlice \/ THas \/ TConvertAll \/ TBulk \/ TBulkGet \/ TCol \/ TWithin \/ TOne
         \/ TUnpack \/ TRepack \/ TPack \/ TRemove \/ TApply \/ TFormat
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
