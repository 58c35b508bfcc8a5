------------------------------ MODULE MCGeometry ------------------------------
(* The predicates of Geometry mean what they should mean as sets of points, and  *)
(* key arithmetic, cells and ancestry agree: checked for all boxes of a small    *)
(* grid (per axis: the predicates are conjunctions over axes) and all keys up to *)
(* a depth.                                                                      *)
EXTENDS Geometry, TLC
CONSTANTS N, D
VARIABLES a, b, k, j
vars == <<a, b, k, j>>
G == 0..N
Iv == {<<x, y>> : x \in G, y \in G}
(* boxes: interesting intervals along x and y, a fixed one along z *)
Boxes == {<<i[1], m[1], 1, i[2], m[2], 2>> : i \in {v \in Iv : v[1] <= v[2]}, m \in {v \in Iv : v[1] <= v[2]}}
Pts(x) == {p \in (G \X G \X {1, 2}) : Holds(x, p)}
Keys(d) == LET S == 0..(2 ^ d - 1) IN {<<d, x, y, z>> : x \in S, y \in S, z \in {0, 2 ^ d - 1}}
AllKeys == UNION {Keys(d) : d \in 0..D}
Init == \/ a \in Boxes /\ b \in Boxes /\ k = Root /\ j = Root
        \/ a = <<0, 0, 1, 0, 0, 2>> /\ b = a /\ k \in AllKeys /\ j \in AllKeys
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* intersecting = having a common point; containing = having all its points *)
SetIntersect == Intersects(a, b) <=> Pts(a) \cap Pts(b) # {}
SetContain == Contains(a, b) <=> Pts(b) \subseteq Pts(a)
Symmetric == Intersects(a, b) <=> Intersects(b, a)
WithinIntersects == Within(a, b) => Intersects(a, b)

S == 2 ^ (D + 1)
C(x) == Cell(x, <<3, -5, 7>>, S)
(* a key is below another exactly when its cell lies within the other's cell *)
CellNesting == BelowOrSelf(k, j) <=> (Within(C(k), C(j)) /\ k[1] >= j[1])
(* cells by direct computation *)
CellDirect == LET st == S \div (2 ^ k[1]) IN C(k) = <<3 + st * k[2], -5 + st * k[3], 7 + st * k[4], 3 + st * (k[2] + 1), -5 + st * (k[3] + 1), 7 + st * (k[4] + 1)>>
(* children halve their parent and know it *)
ChildrenOk == /\ Cardinality(Children(k)) = 8
              /\ \A c \in Children(k) : Up(c) = k /\ BelowOrSelf(c, k) /\ ~BelowOrSelf(k, c)
ChainOk == Len(Chain(k)) = k[1] + 1 /\ Chain(k)[Len(Chain(k))] = Root /\ InOctree(k)
(* same depth: cells share at most faces *)
CellsDisjoint == (k[1] = j[1] /\ k # j) => \E i \in Axes : Hi(C(k), i) <= Lo(C(j), i) \/ Hi(C(j), i) <= Lo(C(k), i)
=============================================================================
