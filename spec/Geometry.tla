------------------------------- MODULE Geometry -------------------------------
(* Closed axis-aligned boxes <<x0, y0, z0, x1, y1, z1>> and points <<x, y, z>>  *)
(* on an integer grid, and the cells of octree keys in a cube.                  *)
EXTENDS Keys

Lo(b, i) == b[i]
Hi(b, i) == b[i + 3]
Axes == 1..3
IsBox(b) == \A i \in Axes : Lo(b, i) <= Hi(b, i)

Intersects(a, b) == \A i \in Axes : Lo(a, i) <= Hi(b, i) /\ Lo(b, i) <= Hi(a, i)
(* a contains all of b *)
Contains(a, b) == \A i \in Axes : Lo(a, i) <= Lo(b, i) /\ Hi(b, i) <= Hi(a, i)
Within(a, b) == Contains(b, a)
Holds(b, p) == \A i \in Axes : Lo(b, i) <= p[i] /\ p[i] <= Hi(b, i)

(* a flat box reaches from the lowest to the highest height there is *)
Flat(x0, y0, x1, y1, top) == <<x0, y0, -top, x1, y1, top>>

Max2(a, b) == IF a > b THEN a ELSE b
(* the cube of an octree: at the minimum corner, as long as the largest extent  *)
Span(mn, mx) == Max2(mx[1] - mn[1], Max2(mx[2] - mn[2], mx[3] - mn[3]))
RECURSIVE Halve(_, _)
Halve(s, d) == IF d = 0 THEN s ELSE Halve(s \div 2, d - 1)
RECURSIVE Exact(_, _)
(* s can be halved d times on the grid *)
Exact(s, d) == IF d = 0 THEN TRUE ELSE s % 2 = 0 /\ Exact(s \div 2, d - 1)
(* repeated halving: the cell of a key is the half of its parent's cell         *)
RECURSIVE Cell(_, _, _)
Cell(k, mn, span) ==
    IF k[1] = 0 THEN <<mn[1] + k[2] * span, mn[2] + k[3] * span, mn[3] + k[4] * span, mn[1] + (k[2] + 1) * span, mn[2] + (k[3] + 1) * span, mn[3] + (k[4] + 1) * span>>
    ELSE LET up == Cell(Up(k), mn, span)
             half == (up[4] - up[1]) \div 2
             at(i) == up[i] + (k[i + 1] % 2) * half
         IN <<at(1), at(2), at(3), at(1) + half, at(2) + half, at(3) + half>>
=============================================================================
