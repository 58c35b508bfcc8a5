-------------------------------- MODULE GenPoints --------------------------------
(* Random histories of points and collections.  Values are classes here (how good    *)
(* they are); the harness draws actual ones.  Ops the library isn't asked to keep     *)
(* layouts under (converting or replacing members behind a collection's back) aren't  *)
(* generated.                                                                         *)
EXTENDS PointStore, TLC, Json
CONSTANTS Depth, WCol, WSeq   \* WCol: per cent of the steps on collections, WSeq: and of those on collections as sequences
VARIABLES hist, done
gvars == <<svars, hist, done>>
N == {"p", "q", "r"}
C == {"c", "d"}
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Lays == {<<6, 0>>, <<6, 2>>, <<7, 0>>, <<8, 3>>, <<8, 2>>, <<7, 2>>}
Attrs == {"X", "Y", "Z", "Intensity", "ReturnNumber", "NumberOfReturns", "ReturnsBitField", "Synthetic", "KeyPoint", "Withheld", "Overlap", "ScannerChannel",
          "ScanDirectionFlag", "EdgeOfFlightLineFlag", "FlagsBitField", "Classification", "UserData", "ScanAngle", "ScanAngleDegrees", "PointSourceId",
          "GPSTime", "Red", "Green", "Blue", "Rgb", "RgbVec", "Nir", "ExtraBytes"}
Bulks == {"X", "Y", "Z", "Classification", "PointSourceId", "Red", "Green", "Blue"}
GInit == SInit(N, C) /\ hist = <<>> /\ done = FALSE
H(x) == hist' = Append(hist, x) /\ UNCHANGED done
Skip(x) == UNCHANGED svars /\ H(x)
Live == {n \in N : Has(n)}
Cols == {c \in C : cols[c] # <<>>}
Size(c) == Len(Col(c).ids)
Foreign(c) == \E d \in Cols \ {c} : Members(d) \cap Members(c) # {}
(* names whose points fit, mostly *)
Fitting(c) == {n \in Live : Fits(c, At(n))}
Cand(c) == IF Fitting(c) # {} /\ Pick(1..4) > 1 THEN Fitting(c) ELSE Live
Names(c) == LET k == Pick(0..3) IN [i \in 1..k |-> Pick(Cand(c))]
Lay(l) == IF Pick(1..3) > 1 /\ Live # {} THEN LET p == At(Pick(Live)) IN <<p.fmt, p.eb>> ELSE l

PointStep ==
    \E r \in {Pick(1..100)}, n \in {Pick(N)}, m \in {Pick(IF Live = {} THEN N ELSE Live)}, lay \in {Lay(Pick(Lays))} :
    IF Live = {} \/ r <= 8 THEN New(n, lay[1], lay[2], "") /\ H([op |-> "new", n |-> n, fmt |-> lay[1], eb |-> lay[2]])
    ELSE IF r <= 10 THEN Skip([op |-> "newbad", n |-> n, fmt |-> Pick({-1, 0, 5, 9, 10, 11, 127}), eb |-> lay[2]])
    ELSE IF r <= 20 THEN Copy(n, m) /\ H([op |-> "copy", n |-> n, m |-> m])
    ELSE IF r <= 24 THEN Alias(n, m) /\ H([op |-> "alias", n |-> n, m |-> m])
    ELSE IF r <= 70 THEN Skip([op |-> "set", n |-> m, a |-> Pick(Attrs)])
    ELSE IF r <= 82 THEN \E f \in {Pick(Formats)} : (IF InCol(names[m]) THEN UNCHANGED svars ELSE ConvertOne(m, f))
                                                     /\ H([op |-> IF InCol(names[m]) THEN "look" ELSE "convert", n |-> m, fmt |-> f])
    ELSE IF r <= 84 THEN Skip([op |-> "convbad", n |-> m, fmt |-> Pick({-1, 0, 5, 9, 10})])
    ELSE Skip([op |-> "eq", n |-> m, m |-> Pick(Live)])
ColStep ==
    \E r \in {Pick(1..100)}, c \in {Pick(C)} :
    IF Live = {} THEN PointStep
    ELSE IF cols[c] = <<>> \/ r <= 4
    THEN \E l \in {Lay(Pick(Lays))}, k \in {Pick(1..4)}, ns \in {[i \in 1..Pick(0..3) |-> Pick(Live)]} :
         IF k > 2 THEN ColNew(c, l[1], l[2]) /\ H([op |-> "cnew", c |-> c, fmt |-> l[1], eb |-> l[2]])
         ELSE IF k = 2 THEN Skip([op |-> "cnewbad", c |-> c, fmt |-> Pick({-1, 0, 5, 9, 11}), eb |-> l[2]])
         ELSE (IF ColOfOk(ns) THEN ColOf(c, ns) ELSE UNCHANGED svars) /\ H([op |-> "cof", c |-> c, ns |-> ns, fit |-> ColOfOk(ns)])
    ELSE IF r <= 30 THEN \E n \in {Pick(Cand(c))} : (IF AddOk(c, <<n>>) THEN Add(c, <<n>>) ELSE UNCHANGED svars) /\ H([op |-> "add", c |-> c, ns |-> <<n>>])
    ELSE IF r <= 42 /\ Size(c) < 6 THEN \E ns \in {Names(c)} : (IF AddOk(c, ns) THEN Add(c, ns) ELSE UNCHANGED svars) /\ H([op |-> "addv", c |-> c, ns |-> ns])
    ELSE IF r <= 50 /\ Size(c) < 5 /\ Cols # {} THEN \E d \in {Pick(Cols)} : (IF AddColOk(c, d) THEN AddCol(c, d) ELSE UNCHANGED svars) /\ H([op |-> "addc", c |-> c, d |-> d])
    ELSE IF r <= 58 THEN \E n \in {Pick(N)} : Create(c, n, "") /\ H([op |-> "create", c |-> c, n |-> n])
    ELSE IF r <= 64 /\ Size(c) > 0 THEN \E n \in {Pick(N)}, i \in {Pick(1..Size(c))} : Take(c, i, n) /\ H([op |-> "take", c |-> c, i |-> i, n |-> n])
    ELSE IF r <= 67 /\ Size(c) > 0 /\ Fitting(c) # {} THEN \E n \in {Pick(Fitting(c))}, i \in {Pick(1..Size(c))} : Replace(c, i, n) /\ H([op |-> "put", c |-> c, i |-> i, n |-> n])
    ELSE IF r <= 75 THEN \E f \in {Pick(Formats)} : (IF Foreign(c) THEN UNCHANGED svars ELSE ConvertAll(c, f))
                                                     /\ H([op |-> IF Foreign(c) THEN "look" ELSE "cconv", c |-> c, fmt |-> f])
    ELSE IF r <= 77 THEN Skip([op |-> "cconvbad", c |-> c, fmt |-> Pick({-1, 0, 5, 9, 10})])
    ELSE IF r <= 92 THEN Skip([op |-> "bulk", c |-> c, a |-> Pick(Bulks), n |-> IF Pick(1..4) > 1 THEN Size(c) ELSE Pick(0..7)])
    ELSE Skip([op |-> "within", c |-> c])
Edge == LET k == Pick(1..10) IN IF k <= 3 THEN <<>> ELSE <<Pick((-7)..7)>>
AnySlice == <<Edge, Edge, LET k == Pick(1..20) IN IF k <= 9 THEN <<>> ELSE IF k <= 19 THEN <<Pick({1, 1, 2, 3, -1, -1, -2, -3})>> ELSE <<0>>>>
SeqStep ==
    \E r \in {Pick(1..100)}, c \in {Pick(C)} :
    IF Live = {} \/ cols[c] = <<>> THEN ColStep
    ELSE IF r <= 25 THEN \E n \in {Pick(N)}, i \in {Pick((-Size(c) - 1)..Size(c))} :
         (IF IndexOk(Size(c), i) THEN Item(c, i, n) ELSE UNCHANGED svars) /\ H([op |-> "item", c |-> c, i |-> i, n |-> n, in |-> IndexOk(Size(c), i)])
    ELSE IF r <= 45 THEN \E n \in {Pick(Cand(c))}, i \in {Pick((-Size(c) - 1)..Size(c))} :
         (IF PutItemOk(c, i, n) THEN PutItem(c, i, n) ELSE UNCHANGED svars) /\ H([op |-> "putitem", c |-> c, i |-> i, n |-> n])
    ELSE IF r <= 65 THEN \E d \in {Pick(Cols)}, sl \in {AnySlice} : \E to \in {Pick(C)} :
         (IF SliceOk(sl) THEN Slice(to, d, sl) ELSE UNCHANGED svars) /\ H([op |-> "slice", c |-> to, d |-> d, sl |-> sl])
    ELSE IF r <= 90 THEN \E d \in {Pick(Cols)}, sl \in {IF Pick(1..4) = 1 THEN <<<<>>, <<>>, <<-1>>>> ELSE IF Pick(1..2) = 1 THEN <<<<>>, <<Size(c)>>, <<1>>>> ELSE AnySlice} :
         (IF PutSliceOk(c, sl, d) THEN PutSlice(c, sl, d) ELSE UNCHANGED svars) /\ H([op |-> "putslice", c |-> c, d |-> d, sl |-> sl])
    ELSE Skip([op |-> "has", c |-> c, n |-> Pick(Live)])
GStep == Len(hist) < Depth /\ (IF Pick(1..100) <= WSeq THEN SeqStep ELSE IF Pick(1..100) <= WCol THEN ColStep ELSE PointStep)
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<svars, hist>>
GSpec == GInit /\ [][GStep \/ GEnd]_gvars
Emit == done => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
