-------------------------------- MODULE Keys --------------------------------
(* Octree keys <<d, x, y, z>>.  The root is <<0,0,0,0>>; every key has eight  *)
(* children one level deeper.  Any negative component makes a key invalid.    *)
EXTENDS Integers, Sequences, FiniteSets

Root == <<0, 0, 0, 0>>
NoKey == <<-1, -1, -1, -1>>
IsValidKey(k) == k[1] >= 0 /\ k[2] >= 0 /\ k[3] >= 0 /\ k[4] >= 0

Up(k) == <<k[1] - 1, k[2] \div 2, k[3] \div 2, k[4] \div 2>>

RECURSIVE Chain(_)
(* a key, its parent, ... down to depth 0 *)
Chain(k) == IF ~IsValidKey(k) THEN <<>> ELSE <<k>> \o Chain(Up(k))

RangeOf(s) == {s[i] : i \in 1..Len(s)}
BelowOrSelf(k, a) == IsValidKey(k) /\ IsValidKey(a) /\ a[1] <= k[1] /\ Chain(k)[k[1] - a[1] + 1] = a
InOctree(k) == IsValidKey(k) /\ Chain(k)[k[1] + 1] = Root

Child(k, c) == <<k[1] + 1, 2 * k[2] + (c % 2), 2 * k[3] + ((c \div 2) % 2), 2 * k[4] + (c \div 4)>>
Children(k) == {Child(k, c) : c \in 0..7}

(* the deepest proper ancestor of k among the keys in S *)
Nearest(k, S) == LET c == Chain(k)
                     hits == {i \in 2..Len(c) : c[i] \in S}
                 IN IF hits = {} THEN NoKey ELSE c[CHOOSE i \in hits : \A j \in hits : i <= j]
=============================================================================
