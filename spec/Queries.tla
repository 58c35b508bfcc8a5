-------------------------------- MODULE Queries --------------------------------
(* Resolution and box queries, spatial validation and configuration of a file.    *)
(* g = [mn, mx, spacing]: header bounds and spacing on an integer grid.            *)
EXTENDS CopcReader, Geometry

RECURSIVE FlatRows(_)
FlatRows(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlatRows(Tail(s))

MaxDepth(keys) == IF keys = {} THEN -1 ELSE CHOOSE d \in {k[1] : k \in keys} : \A k \in keys : k[1] <= d
RECURSIVE HalfUp(_, _)
(* s halved i times, rounded up: at most r exactly when s / 2^i is *)
HalfUp(s, i) == IF i = 0 THEN s ELSE HalfUp((s + 1) \div 2, i - 1)
DepthFor(keys, spacing, res) ==
    LET md == MaxDepth(keys)
        ok == {i \in 0..md : HalfUp(spacing, i) <= res}
    IN IF res <= 0 \/ ok = {} THEN md ELSE CHOOSE i \in ok : \A j \in ok : i <= j

CellOf(k, g) == Cell(k, g.mn, Span(g.mn, g.mx))
HeaderBox(g) == <<g.mn[1], g.mn[2], g.mn[3], g.mx[1], g.mx[2], g.mx[3]>>
NodesFor(keys, g, q, box, res) ==
    LET d == DepthFor(keys, g.spacing, res) IN
    CASE q = "at" -> {k \in keys : k[1] = d}
      [] q = "upto" -> {k \in keys : k[1] <= d}
      [] q = "within" -> {k \in keys : k[1] <= d /\ Within(CellOf(k, g), box)}
      [] q = "touch" -> {k \in keys : k[1] <= d /\ Intersects(CellOf(k, g), box)}

(* points are [t, p]: a token naming all attributes, and the position              *)
RECURSIVE Gather(_, _, _, _)
(* R: the points of each node *)
Gather(nodes, R, q, box) ==
    IF nodes = {} THEN <<>>
    ELSE LET n == CHOOSE n \in nodes : TRUE
             r == SelectSeq(R[n], LAMBDA x : q = "all" \/ Holds(box, x.p))
         IN [i \in 1..Len(r) |-> r[i].t] \o Gather(nodes \ {n}, R, q, box)
PointsFor(nodes, R, g, q, box, res) ==
    LET d == DepthFor({n.key : n \in nodes}, g.spacing, res)
    IN Gather({n \in nodes : n.key[1] <= d}, R, q, box)
(* every point lies in the cell of its node *)
Tidy(nodes, R, g) == \A n \in nodes : \A i \in 1..Len(R[n]) : Holds(CellOf(n.key, g), R[n][i].p)

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) : Count(a, x) = Count(b, x)

RECURSIVE Outside(_, _, _, _)
(* the number of points outside the header bounds, or outside the cells of their nodes *)
Outside(nodes, R, g, ofheader) ==
    IF nodes = {} THEN 0
    ELSE LET n == CHOOSE n \in nodes : TRUE
             b == IF ofheader THEN HeaderBox(g) ELSE CellOf(n.key, g)
         IN Cardinality({i \in 1..Len(R[n]) : ~Holds(b, R[n][i].p)}) + Outside(nodes \ {n}, R, g, ofheader)
Validation(nodes, R, g) ==
    LET touch == \A n \in nodes : Intersects(CellOf(n.key, g), HeaderBox(g))
        a == Outside(nodes, R, g, TRUE)
        b == Outside(nodes, R, g, FALSE)
    IN [fine |-> touch /\ a = 0 /\ b = 0, outhdr |-> a, outnode |-> b]

(* the configuration of a file, from what its records say.  said: values by record  *)
(* name, "" for records the file does not have; placement plays no role             *)
ConfigOf(f, said) ==
    [wkt |-> said.wkt, eb |-> said.eb, ebbytes |-> f.hdr.reclen - BaseSize(f.hdr.fmt), fmt |-> f.hdr.fmt, count |-> f.hdr.count,
     hdr |-> said.hdr, info |-> said.info,
     ext |-> IF f.copc THEN (IF said.ext = <<>> THEN [i \in 1..(Dimensions(f.hdr.fmt) + Len(f.ebtypes)) |-> said.zero] ELSE said.ext) ELSE <<>>,
     (* means and variances are there exactly when both records are *)
     stats |-> f.copc /\ said.ext # <<>> /\ said.stats # <<>>,
     mv |-> IF f.copc /\ said.ext # <<>> /\ said.stats # <<>> THEN said.stats ELSE <<>>]
=============================================================================
