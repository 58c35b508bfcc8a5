------------------------------- MODULE Pipeline -------------------------------
(* Reading or transforming the nodes of a file with a pool of workers, as the     *)
(* caller sees it.  A call c has the selected items (node key, page, points and   *)
(* whether processing it fails), what is to be done with each, and what is asked  *)
(* for in the end.  A point is <<x, y, z, classification, id>>, in units.         *)
EXTENDS Integers, Sequences, FiniteSets

Items(c) == 1..Len(c.items)
Fails(c) == {i \in Items(c) : c.items[i].err # ""}
Refusable(c) == c.bad # "" \/ Fails(c) # {}

InList(x, s) == \E i \in 1..Len(s) : s[i] = x
Keep(ps, classes) == IF classes = <<>> THEN ps ELSE SelectSeq(ps, LAMBDA p : InList(p[4], classes))
Shift(ps, d) == [i \in 1..Len(ps) |-> <<ps[i][1] + d[1], ps[i][2] + d[2], ps[i][3] + d[3], ps[i][4], ps[i][5]>>]
(* what processing the i-th item gives: points of the wanted classes, moved *)
Result(c, i) == Shift(Keep(c.items[i].pts, c.classes), c.shift)
Coords(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], ps[i][2], ps[i][3]>>]

Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
SubBag(s, t) == \A i \in 1..Len(s) : Times(s, s[i]) <= Times(t, s[i])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Filter(c, Sel(_)) == SelectSeq([i \in Items(c) |-> i], Sel)
NonEmpty(c) == Filter(c, LAMBDA i : Result(c, i) # <<>>)

(* the sequential answers *)
Collected(c) == Flat([i \in Items(c) |-> Coords(Result(c, i))])
Mapped(c) == LET ne == NonEmpty(c) IN [j \in 1..Len(ne) |-> [key |-> c.items[ne[j]].key, pts |-> Coords(Result(c, ne[j]))]]
Written(c) == LET ne == NonEmpty(c) IN [j \in 1..Len(ne) |-> [key |-> c.items[ne[j]].key, page |-> c.items[ne[j]].page, pts |-> Result(c, ne[j])]]
Payloads(c) == [i \in Items(c) |-> [key |-> c.items[i].key, pts |-> Result(c, i)]]
Axis(c, a) == {p[a] : p \in UNION {{Result(c, i)[j] : j \in 1..Len(Result(c, i))} : i \in Items(c)}}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Bounds(c) ==
    IF ~c.update THEN c.bounds
    ELSE IF NonEmpty(c) = <<>> THEN <<<<0, 0, 0>>, <<0, 0, 0>>>>
    ELSE <<[a \in 1..3 |-> Least(Axis(c, a))], [a \in 1..3 |-> Most(Axis(c, a))]>>

(* what has to hold when the call returns or raises *)
Answered(c, got) ==
    CASE c.what = "read" -> TRUE
      [] c.what = "concat" -> SameBag(got.points, Collected(c))
      [] c.what = "map" -> SameBag(got.map, Mapped(c))
      [] c.what = "copc" -> SameBag(got.nodes, Written(c)) /\ got.bounds = Bounds(c)
      [] c.what = "laz" -> SameBag(got.chunks, [j \in 1..Len(Written(c)) |-> Written(c)[j].pts]) /\ got.bounds = Bounds(c)
(* after a failure: nothing that isn't a result *)
Partial(c, got) ==
    CASE c.what = "copc" -> SubBag(got.nodes, Written(c))
      [] c.what = "laz" -> SubBag(got.chunks, [j \in 1..Len(Written(c)) |-> Written(c)[j].pts])
      [] OTHER -> TRUE
Keys(c) == [i \in Items(c) |-> c.items[i].key]
EndOk(c, e, delivered) ==
    /\ e.ok = ~Refusable(c)
    /\ e.ok =>
        /\ Answered(c, e.got)
        /\ c.callback => SameBag(delivered, Payloads(c))
        /\ c.logged => SameBag(e.worked, Keys(c))
        /\ c.progress => e.updates = Len(c.items) /\ e.resets = (IF c.chosen THEN <<>> ELSE <<Len(c.items)>>)
    /\ ~e.ok =>
        /\ c.bad # "" \/ \E i \in Fails(c) : e.err = c.items[i].err
        /\ Partial(c, e.got)
        /\ c.logged => SubBag(e.worked, Keys(c))
=============================================================================
