------------------------------- MODULE PointStore -------------------------------
(* Points and collections of points as objects with attributes.                    *)
(* A point is a record; names refer to points, collections hold references in      *)
(* order.  Attributes whose value isn't settled by what was done (dimensions a      *)
(* conversion brought in, a rounded angle) are sets of the values they may have.    *)
EXTENDS Integers, Sequences, FiniteSets

Formats == 6..8
Base(fmt) == CASE fmt = 6 -> 30 [] fmt = 7 -> 36 [] fmt = 8 -> 38
HasRgb(fmt) == fmt \in {7, 8}
HasNir(fmt) == fmt = 8
NumDims(fmt) == CASE fmt = 6 -> 14 [] fmt = 7 -> 17 [] fmt = 8 -> 18

(* bit fields of bytes *)
Pow2(n) == 2 ^ n
BitsOf(b, pos, width) == (b \div Pow2(pos)) % Pow2(width)
WithBits(b, pos, width, v) == b - BitsOf(b, pos, width) * Pow2(pos) + v * Pow2(pos)
Flags == [Synthetic |-> <<0, 1>>, KeyPoint |-> <<1, 1>>, Withheld |-> <<2, 1>>, Overlap |-> <<3, 1>>, ScannerChannel |-> <<4, 2>>,
          ScanDirectionFlag |-> <<6, 1>>, EdgeOfFlightLineFlag |-> <<7, 1>>]
Returns == [ReturnNumber |-> <<0, 4>>, NumberOfReturns |-> <<4, 4>>]
U8 == 0..255
U16 == 0..65535
I16 == -32768..32767

(* coordinates: the exact value as a token, and in tenths of a millionth *)
ZeroCoord == [v |-> "b:0000000000000000", q |-> 0]
NewPoint(fmt, eb, zeros) ==
    [fmt |-> fmt, eb |-> eb, X |-> ZeroCoord, Y |-> ZeroCoord, Z |-> ZeroCoord, Intensity |-> 0, ret |-> 0, flg |-> 0, Classification |-> 0, UserData |-> 0,
     ang |-> {0}, PointSourceId |-> 0, GPSTime |-> "b:0000000000000000", Red |-> {0}, Green |-> {0}, Blue |-> {0}, Nir |-> {0}, ExtraBytes |-> zeros]

Put(p, a, v) == [p EXCEPT ![a] = v]
Done(p) == [ok |-> TRUE, p |-> p]
Refused(p) == [ok |-> FALSE, p |-> p]
When(c, p, q) == IF c THEN Done(q) ELSE Refused(p)

(* setting one attribute: what may come of it *)
SetAttr(p, a, v) ==
    CASE a \in {"X", "Y", "Z", "GPSTime"} -> Done(Put(p, a, v))
      [] a \in {"Intensity", "PointSourceId"} -> When(v \in U16, p, Put(p, a, v))
      [] a \in {"Classification", "UserData"} -> When(v \in U8, p, Put(p, a, v))
      [] a = "ReturnsBitField" -> When(v \in U8, p, [p EXCEPT !.ret = v])
      [] a = "FlagsBitField" -> When(v \in U8, p, [p EXCEPT !.flg = v])
      [] a \in DOMAIN Returns -> When(v \in 0..(Pow2(Returns[a][2]) - 1), p, [p EXCEPT !.ret = WithBits(p.ret, Returns[a][1], Returns[a][2], v)])
      [] a \in DOMAIN Flags -> When(v \in 0..(Pow2(Flags[a][2]) - 1), p, [p EXCEPT !.flg = WithBits(p.flg, Flags[a][1], Flags[a][2], v)])
      [] a = "ScanAngle" -> When(v \in I16, p, [p EXCEPT !.ang = {v}])
      (* v: the steps nearest to the angle; none when it can't be stored *)
      [] a = "ScanAngleDegrees" -> When(v # <<>>, p, [p EXCEPT !.ang = {v[i] : i \in 1..Len(v)}])
      [] a \in {"Red", "Green", "Blue"} -> When(HasRgb(p.fmt) /\ v \in U16, p, Put(p, a, {v}))
      [] a = "Rgb" -> When(HasRgb(p.fmt) /\ Len(v) = 3, p, [p EXCEPT !.Red = {v[1]}, !.Green = {v[2]}, !.Blue = {v[3]}])
      [] a = "Nir" -> When(HasNir(p.fmt) /\ v \in U16, p, [p EXCEPT !.Nir = {v}])
      (* v: the bytes and how many *)
      [] a = "ExtraBytes" -> When(v[2] = p.eb, p, [p EXCEPT !.ExtraBytes = v[1]])

(* another format: shared attributes stay; a new one is zero or what it was when the point last had it *)
Convert(p, fmt) ==
    LET gain(s, had) == IF had THEN s ELSE s \cup {0} IN
    [p EXCEPT !.fmt = fmt, !.Red = gain(@, HasRgb(p.fmt)), !.Green = gain(@, HasRgb(p.fmt)), !.Blue = gain(@, HasRgb(p.fmt)), !.Nir = gain(@, HasNir(p.fmt))]
(* a copy need not know what its source has forgotten *)
CopyOf(p) == Convert(p, p.fmt)

(* what the getters say *)
B01(b) == b = 1
Explains(p, g) ==
    /\ g.fmt = p.fmt /\ g.reclen = Base(p.fmt) + p.eb /\ g.ebsize = p.eb /\ g.hasrgb = HasRgb(p.fmt) /\ g.hasnir = HasNir(p.fmt)
    /\ g.X = p.X.v /\ g.Y = p.Y.v /\ g.Z = p.Z.v
    /\ g.Intensity = p.Intensity /\ g.ReturnsBitField = p.ret /\ g.FlagsBitField = p.flg
    /\ \A a \in DOMAIN Returns : g[a] = BitsOf(p.ret, Returns[a][1], Returns[a][2])
    /\ \A a \in DOMAIN Flags : g[a] = BitsOf(p.flg, Flags[a][1], Flags[a][2])
    /\ g.Classification = p.Classification /\ g.UserData = p.UserData /\ g.PointSourceId = p.PointSourceId
    /\ g.ScanAngle \in p.ang /\ g.degrees = g.ScanAngle
    /\ g.GPSTime = p.GPSTime /\ g.ExtraBytes = p.ExtraBytes
    /\ IF HasRgb(p.fmt) THEN g.Red \in p.Red /\ g.Green \in p.Green /\ g.Blue \in p.Blue ELSE g.Red = -1 /\ g.Green = -1 /\ g.Blue = -1
    /\ IF HasNir(p.fmt) THEN g.Nir \in p.Nir ELSE g.Nir = -1
(* having seen them *)
Settle(p, g) ==
    [p EXCEPT !.ang = {g.ScanAngle},
              !.Red = IF HasRgb(p.fmt) THEN {g.Red} ELSE @, !.Green = IF HasRgb(p.fmt) THEN {g.Green} ELSE @, !.Blue = IF HasRgb(p.fmt) THEN {g.Blue} ELSE @,
              !.Nir = IF HasNir(p.fmt) THEN {g.Nir} ELSE @]
Settled(p) == /\ Cardinality(p.ang) = 1
              /\ HasRgb(p.fmt) => Cardinality(p.Red) = 1 /\ Cardinality(p.Green) = 1 /\ Cardinality(p.Blue) = 1
              /\ HasNir(p.fmt) => Cardinality(p.Nir) = 1

(* equality: format and every attribute; coordinates to a millionth *)
Apart(a, b) == IF a.q > b.q THEN a.q - b.q ELSE b.q - a.q
Near(a, b) == Apart(a, b) <= 9
Far(a, b) == Apart(a, b) >= 11
SameBut(p, q) ==
    /\ p.fmt = q.fmt /\ p.eb = q.eb
    /\ p.Intensity = q.Intensity /\ p.ret = q.ret /\ p.flg = q.flg /\ p.Classification = q.Classification /\ p.UserData = q.UserData
    /\ p.ang = q.ang /\ p.PointSourceId = q.PointSourceId /\ p.GPSTime = q.GPSTime /\ p.ExtraBytes = q.ExtraBytes
    /\ HasRgb(p.fmt) => p.Red = q.Red /\ p.Green = q.Green /\ p.Blue = q.Blue
    /\ HasNir(p.fmt) => p.Nir = q.Nir
Equal(p, q) == SameBut(p, q) /\ Near(p.X, q.X) /\ Near(p.Y, q.Y) /\ Near(p.Z, q.Z)
Unequal(p, q) == ~SameBut(p, q) \/ Far(p.X, q.X) \/ Far(p.Y, q.Y) \/ Far(p.Z, q.Z)

(* ------------------------------------------------------------------ the store *)
VARIABLES heap,   \* all points
          names,  \* name -> number of its point in the heap, 0 for none
          cols    \* name -> <<>> or <<[fmt, eb, ids]>>
svars == <<heap, names, cols>>
SInit(N, C) == heap = <<>> /\ names = [n \in N |-> 0] /\ cols = [c \in C |-> <<>>]
Has(n) == names[n] # 0
At(n) == heap[names[n]]
Col(c) == cols[c][1]
Fits(c, p) == p.fmt = Col(c).fmt /\ p.eb = Col(c).eb
InCol(i) == \E c \in DOMAIN cols : cols[c] # <<>> /\ \E j \in 1..Len(Col(c).ids) : Col(c).ids[j] = i

Bind(n, p) == heap' = Append(heap, p) /\ names' = [names EXCEPT ![n] = Len(heap) + 1] /\ UNCHANGED cols
New(n, fmt, eb, zeros) == fmt \in Formats /\ Bind(n, NewPoint(fmt, eb, zeros))
Copy(n, m) == Has(m) /\ Bind(n, CopyOf(At(m)))
Alias(n, m) == Has(m) /\ names' = [names EXCEPT ![n] = names[m]] /\ UNCHANGED <<heap, cols>>
Set(n, a, v) == Has(n) /\ SetAttr(At(n), a, v).ok /\ heap' = [heap EXCEPT ![names[n]] = SetAttr(@, a, v).p] /\ UNCHANGED <<names, cols>>
SetRefused(n, a, v) == Has(n) /\ ~SetAttr(At(n), a, v).ok /\ UNCHANGED svars
ConvertOne(n, fmt) == Has(n) /\ fmt \in Formats /\ heap' = [heap EXCEPT ![names[n]] = Convert(@, fmt)] /\ UNCHANGED <<names, cols>>

SetCol(c, x) == cols' = [cols EXCEPT ![c] = <<x>>]
ColNew(c, fmt, eb) == fmt \in Formats /\ SetCol(c, [fmt |-> fmt, eb |-> eb, ids |-> <<>>]) /\ UNCHANGED <<heap, names>>
Ids(ns) == [i \in 1..Len(ns) |-> names[ns[i]]]
Alike(ns) == \A i \in 1..Len(ns) : At(ns[i]).fmt = At(ns[1]).fmt /\ At(ns[i]).eb = At(ns[1]).eb
ColOfOk(ns) == Len(ns) > 0 /\ Alike(ns)
ColOf(c, ns) == ColOfOk(ns) /\ SetCol(c, [fmt |-> At(ns[1]).fmt, eb |-> At(ns[1]).eb, ids |-> Ids(ns)]) /\ UNCHANGED <<heap, names>>
AddOk(c, ns) == \A i \in 1..Len(ns) : Fits(c, At(ns[i]))
Add(c, ns) == AddOk(c, ns) /\ SetCol(c, [Col(c) EXCEPT !.ids = @ \o Ids(ns)]) /\ UNCHANGED <<heap, names>>
AddColOk(c, d) == Col(d).fmt = Col(c).fmt /\ Col(d).eb = Col(c).eb
AddCol(c, d) == AddColOk(c, d) /\ SetCol(c, [Col(c) EXCEPT !.ids = @ \o Col(d).ids]) /\ UNCHANGED <<heap, names>>
Create(c, n, zeros) == Bind(n, NewPoint(Col(c).fmt, Col(c).eb, zeros))
Take(c, i, n) == i \in 1..Len(Col(c).ids) /\ names' = [names EXCEPT ![n] = Col(c).ids[i]] /\ UNCHANGED <<heap, cols>>
Replace(c, i, n) == i \in 1..Len(Col(c).ids) /\ SetCol(c, [Col(c) EXCEPT !.ids[i] = names[n]]) /\ UNCHANGED <<heap, names>>
Members(c) == {Col(c).ids[i] : i \in 1..Len(Col(c).ids)}
ConvertAll(c, fmt) == /\ fmt \in Formats
                      /\ heap' = [i \in 1..Len(heap) |-> IF i \in Members(c) THEN Convert(heap[i], fmt) ELSE heap[i]]
                      /\ SetCol(c, [Col(c) EXCEPT !.fmt = fmt]) /\ UNCHANGED names
(* ---- a collection as a sequence: indices from either end, slices, membership     *)
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
IndexOk(n, i) == i \in (-n)..(n - 1)
IndexAt(n, i) == IF i < 0 THEN i + n + 1 ELSE i + 1
(* the places <<start, stop, step>> stands for among n, in order; a bound may be left out *)
Bound(n, v, rev) == LET w == IF v[1] < 0 THEN v[1] + n ELSE v[1] IN IF rev THEN Lesser(Greater(w, -1), n - 1) ELSE Lesser(Greater(w, 0), n)
Places(n, sl) ==
    LET step == IF sl[3] = <<>> THEN 1 ELSE sl[3][1]
        rev == step < 0
        from == IF sl[1] # <<>> THEN Bound(n, sl[1], rev) ELSE IF rev THEN n - 1 ELSE 0
        to == IF sl[2] # <<>> THEN Bound(n, sl[2], rev) ELSE IF rev THEN -1 ELSE n
        k == IF rev THEN (IF from > to THEN (from - to - 1) \div (-step) + 1 ELSE 0) ELSE (IF from < to THEN (to - from - 1) \div step + 1 ELSE 0)
    IN [i \in 1..k |-> from + (i - 1) * step + 1]
SliceOk(sl) == sl[3] # <<0>>
Item(c, i, n) == IndexOk(Len(Col(c).ids), i) /\ Take(c, IndexAt(Len(Col(c).ids), i), n)
PutItemOk(c, i, n) == IndexOk(Len(Col(c).ids), i) /\ Fits(c, At(n))
PutItem(c, i, n) == PutItemOk(c, i, n) /\ Replace(c, IndexAt(Len(Col(c).ids), i), n)
Slice(c, d, sl) == /\ SliceOk(sl)
                   /\ LET at == Places(Len(Col(d).ids), sl) IN SetCol(c, [Col(d) EXCEPT !.ids = [i \in 1..Len(at) |-> Col(d).ids[at[i]]]])
                   /\ UNCHANGED <<heap, names>>
PutSliceOk(c, sl, d) == SliceOk(sl) /\ Len(Places(Len(Col(c).ids), sl)) = Len(Col(d).ids) /\ AddColOk(c, d)
PutSlice(c, sl, d) ==
    /\ PutSliceOk(c, sl, d)
    /\ LET at == Places(Len(Col(c).ids), sl)
           from(i) == IF \E j \in 1..Len(at) : at[j] = i THEN Col(d).ids[CHOOSE j \in 1..Len(at) : at[j] = i] ELSE Col(c).ids[i]
       IN SetCol(c, [Col(c) EXCEPT !.ids = [i \in 1..Len(Col(c).ids) |-> from(i)]])
    /\ UNCHANGED <<heap, names>>
(* nothing is exchanged: refusing a collection of another layout or not is all the same *)
PutNothing(c, sl, d) == SliceOk(sl) /\ Places(Len(Col(c).ids), sl) = <<>> /\ Col(d).ids = <<>>

(* one value per point, in order; the last one counts for a point listed twice *)
LastOf(c, i) == CHOOSE j \in 1..Len(Col(c).ids) : Col(c).ids[j] = i /\ \A k \in (j + 1)..Len(Col(c).ids) : Col(c).ids[k] # i
BulkOk(c, a, vs) == Len(vs) = Len(Col(c).ids) /\ \A j \in 1..Len(vs) : SetAttr(heap[Col(c).ids[j]], a, vs[j]).ok
Bulk(c, a, vs) == /\ BulkOk(c, a, vs)
                  /\ heap' = [i \in 1..Len(heap) |-> IF i \in Members(c) THEN SetAttr(heap[i], a, vs[LastOf(c, i)]).p ELSE heap[i]]
                  /\ UNCHANGED <<names, cols>>

(* every point of a collection has its layout *)
OneLayout == \A c \in DOMAIN cols : cols[c] # <<>> => \A i \in 1..Len(Col(c).ids) : Fits(c, heap[Col(c).ids[i]])
=============================================================================
