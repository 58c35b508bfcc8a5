--------------------------------- MODULE Values ---------------------------------
(* Small values: vectors, entries of the hierarchy, and what is printed of them.    *)
EXTENDS Integers, Sequences, Keys

(* -------------------------------------------------------------------- vectors *)
(* The numbers of a vector are whole multiples of 1/u.                             *)
Axes == 1..3
Each(op(_, _), a, b) == [i \in Axes |-> op(a[i], b[i])]
All(op(_, _), a, d) == [i \in Axes |-> op(a[i], d)]
Plus(x, y) == x + y
Minus(x, y) == x - y
Times(x, y) == x * y
(* r/u is the quotient of y/u and x/u *)
Quotient(u, r, y, x) == r * x = u * y
(* q is the greatest whole number that isn't above the quotient of y/u and x/u *)
Below(q, y, x) == IF x > 0 THEN q * x <= y /\ (q + 1) * x > y ELSE q * x >= y /\ (q + 1) * x < y

(* -------------------------------------------------------------------- entries *)
EntryValid(key, size) == IsValidKey(key) /\ size >= 0
IsPageEntry(key, size, n) == EntryValid(key, size) /\ n = -1
(* pages that are loaded don't need a place in the file *)
PageValid(key, size, loaded) == IsValidKey(key) /\ (loaded \/ size >= 0)
RECURSIVE Bytes(_)
Bytes(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Bytes(Tail(parts))
(* COPC: depth, x, y, z (k: their bytes), offset, size, count *)
Stored(k, off, size, n) == Bytes(<<k[1], k[2], k[3], k[4], off, size, n>>)
================================================================================
