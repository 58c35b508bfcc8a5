-------------------------------- MODULE MCValues --------------------------------
(* Laws of the operations, for all small vectors and entries. *)
EXTENDS Values, TLC
CONSTANTS N
VARIABLES a, b, d
vars == <<a, b, d>>
V == [Axes -> -N..N]
Init == a \in V /\ b \in V /\ d \in -N..N
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inverse == /\ Each(Minus, Each(Plus, a, b), b) = a
           /\ All(Minus, All(Plus, a, d), d) = a
           /\ \A i \in Axes : b[i] # 0 => Quotient(1, a[i], a[i] * b[i], b[i])
Mixed == All(Times, a, d) = Each(Times, a, <<d, d, d>>) /\ All(Plus, a, d) = Each(Plus, a, <<d, d, d>>)
Unique == d # 0 => \A i \in Axes : \A p, q \in -N..N : Quotient(1, p, a[i], d) /\ Quotient(1, q, a[i], d) => p = q
Floors == d # 0 => \A i \in Axes : \E q \in -N..N : Below(q, a[i], d) /\ \A r \in -N..N : Below(r, a[i], d) => r = q
Exact == d # 0 => \A i \in Axes : \A q \in -N..N : Quotient(1, q, a[i], d) => Below(q, a[i], d)
(* what is stored tells the values apart *)
Apart == LET u(x) == <<(x + 256) % 256, 0, 0, 0>>
             s(k, o) == Stored(<<u(k[1]), u(k[2]), u(k[3]), u(0)>>, u(o) \o <<0, 0, 0, 0>>, u(1), u(k[1])) IN
         (s(a, d) = s(b, d)) <=> (a = b)
Entries == LET k == <<a[1], a[2], a[3], b[1]>> IN
           /\ IsPageEntry(k, b[2], b[3]) => EntryValid(k, b[2])
           /\ EntryValid(k, b[2]) <=> PageValid(k, b[2], FALSE)
           /\ PageValid(k, b[2], FALSE) => PageValid(k, b[2], TRUE)
================================================================================
