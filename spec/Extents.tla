------------------------------- MODULE Extents -------------------------------
(* Extents: one [minimum, maximum, mean, variance] per dimension of a point     *)
(* format, the extra-byte items following all standard dimensions.              *)
(* Values are ranks in an ordered palette of doubles, in which 0.0 has rank 0   *)
(* and 1.0 has rank One.                                                        *)
EXTENDS LasFile
CONSTANT One

DimNames == <<"X", "Y", "Z", "Intensity", "ReturnNumber", "NumberOfReturns", "ScannerChannel", "ScanDirectionFlag",
              "EdgeOfFlightLine", "Classification", "UserData", "ScanAngle", "PointSourceId", "GpsTime",
              "Red", "Green", "Blue", "Nir">>
Supported(fmt) == fmt \in 6..8
DimIndex(d) == CHOOSE i \in 1..18 : DimNames[i] = d
HasDim(fmt, d) == DimIndex(d) <= Dimensions(fmt)

Unset == <<0, 0, 0, One>>
QuadOk(q) == q[1] <= q[2] /\ q[4] >= 0

ExtNew(fmt, neb, on) == [fmt |-> fmt, on |-> on, items |-> [i \in 1..(Dimensions(fmt) + neb) |-> Unset]]
EbCount(x) == Len(x.items) - Dimensions(x.fmt)
EbQuads(x) == SubSeq(x.items, Dimensions(x.fmt) + 1, Len(x.items))
SetDim(x, d, q) == [x EXCEPT !.items[DimIndex(d)] = q]
SetEbs(x, qs) == [x EXCEPT !.items = SubSeq(x.items, 1, Dimensions(x.fmt)) \o qs]

(* carried over to another layout: what both layouts have; extra-byte extents when their number is the same *)
ExtDerive(x, fmt, neb, on) ==
    [fmt |-> fmt, on |-> on,
     items |-> [i \in 1..(Dimensions(fmt) + neb) |->
                   IF i <= Dimensions(fmt) THEN IF i <= Dimensions(x.fmt) THEN x.items[i] ELSE Unset
                   ELSE IF neb = EbCount(x) THEN x.items[Dimensions(x.fmt) + i - Dimensions(fmt)] ELSE Unset]]

(* stored form: pairs (minimum, maximum), and pairs (mean, variance) when enabled *)
MinMaxPairs(x) == [i \in 1..Len(x.items) |-> <<x.items[i][1], x.items[i][2]>>]
StatPairs(x) == [i \in 1..Len(x.items) |-> <<x.items[i][3], x.items[i][4]>>]
PairsOk(ps, fmt, neb) ==
    /\ Supported(fmt)
    /\ Len(ps) = Dimensions(fmt) + neb
    /\ \A i \in 1..Len(ps) : ps[i][1] <= ps[i][2]
ExtOfPairs(ps, fmt, on) == [fmt |-> fmt, on |-> on, items |-> [i \in 1..Len(ps) |-> <<ps[i][1], ps[i][2], 0, One>>]]
StatsOk(x, ps) == x.on /\ Len(ps) = Len(x.items) /\ \A i \in 1..Len(ps) : ps[i][2] >= 0
WithStats(x, ps) == [x EXCEPT !.items = [i \in 1..Len(ps) |-> <<x.items[i][1], x.items[i][2], ps[i][1], ps[i][2]>>]]
(* written and read back: statistics survive only when they are enabled *)
Stored(x) == IF x.on THEN x ELSE [x EXCEPT !.items = [i \in 1..Len(x.items) |-> <<x.items[i][1], x.items[i][2], 0, One>>]]
=============================================================================
