------------------------------- MODULE MCReader -------------------------------
(* A reader that loads hierarchy pages only when a query needs them gives the     *)
(* answers of the complete file, for every legal layout, every order of queries    *)
(* and every set of unreadable pages.                                              *)
EXTENDS CopcReader, TLC
CONSTANTS Size, MaxBad
Ks == {Root, <<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<2, 0, 0, 0>>} \cup (IF Size > 4 THEN {<<3, 1, 0, 0>>} ELSE {}) \cup (IF Size > 5 THEN {<<2, 2, 0, 0>>} ELSE {})
Strangers == {<<2, 1, 0, 0>>, <<4, 2, 0, 0>>, <<-1, -1, -1, -1>>}

VARIABLES pg, nd, broken, seen, loaded, ans
vars == <<pg, nd, broken, seen, loaded, ans>>

(* layouts: pg = page keys, nd = function node key -> page listing it             *)
Above(k) == {a \in Ks : BelowOrSelf(k, a)}
Owner(p) == Nearest(p, pg)
Subs(p) == {q \in pg : q # Root /\ Owner(q) = p}
Listed(p) == {k \in DOMAIN nd : nd[k] = p}
(* the same content in the form CopcReader's answers are about *)
Reach == LET ok(p) == \A q \in pg : (BelowOrSelf(p, q) /\ q # p) => q \notin broken IN {p \in pg : ok(p)}
C == [pages |-> Reach, bad |-> Reach \cap broken, odd |-> FALSE, twice |-> FALSE, unclear |-> FALSE,
      nodes |-> {[key |-> k, page |-> nd[k], off |-> 0, size |-> 0, n |-> 1] : k \in {j \in DOMAIN nd : nd[j] \in Reach \ broken}}]
N(k) == [key |-> k, page |-> nd[k], off |-> 0, size |-> 0, n |-> 1]

(* --- the lazy reader: st = [seen, loaded, ok] *)
Known(st) == {k \in DOMAIN nd : nd[k] \in st.loaded}
Load(p, st) == IF p \in broken THEN [st EXCEPT !.ok = FALSE]
               ELSE [seen |-> st.seen \cup Subs(p), loaded |-> st.loaded \cup {p}, ok |-> TRUE]
SeenAbove(k, st) == LET c == Chain(k) h == {i \in 1..Len(c) : c[i] \in st.seen}
                    IN IF h = {} THEN NoKey ELSE c[CHOOSE i \in h : \A j \in h : i <= j]
RECURSIVE LFind(_, _)
LFind(k, st) ==
    IF k \in Known(st) THEN [st |-> st, node |-> <<N(k)>>]
    ELSE LET p == SeenAbove(k, st) IN
         IF p = NoKey \/ p \in st.loaded THEN [st |-> st, node |-> <<>>]
         ELSE LET s2 == Load(p, st) IN IF s2.ok THEN LFind(k, s2) ELSE [st |-> s2, node |-> <<>>]
RECURSIVE LTree(_, _)
(* load the pages of a list and everything below them *)
LTree(todo, st) ==
    IF todo = {} \/ ~st.ok THEN st
    ELSE LET p == CHOOSE p \in todo : TRUE
             s2 == IF p \in st.loaded THEN st ELSE Load(p, st)
         IN IF ~s2.ok THEN s2 ELSE LTree((todo \ {p}) \cup Subs(p), s2)
RECURSIVE LDown(_, _)
(* load pages on the way to k until its own page is seen *)
LDown(k, st) == LET p == SeenAbove(k, st) IN
                IF p = NoKey \/ p = k \/ p \in st.loaded \/ ~st.ok THEN st ELSE LDown(k, Load(p, st))
LKids(k, st) ==
    LET f == LFind(k, st) IN
    IF ~f.st.ok THEN [st |-> f.st, nodes |-> {}]
    ELSE LET d == LDown(k, f.st) IN
         IF ~d.ok THEN [st |-> d, nodes |-> {}]
         ELSE IF k \notin d.seen THEN [st |-> d, nodes |-> RangeOf(f.node)]
         ELSE LET t == LTree({k}, d) IN [st |-> t, nodes |-> {N(j) : j \in {i \in DOMAIN nd : BelowOrSelf(nd[i], k)}}]

St == [seen |-> seen, loaded |-> loaded, ok |-> TRUE]
Take(st) == seen' = st.seen /\ loaded' = st.loaded
Find(k) == LET r == LFind(k, St) IN Take(r.st) /\ ans' = [q |-> "find", k |-> k, ok |-> r.st.ok, a |-> r.node]
Kids(k) == LET r == LKids(k, St) IN Take(r.st) /\ ans' = [q |-> "kids", k |-> k, ok |-> r.st.ok, a |-> r.nodes]
All == LET r == LKids(Root, St) IN Take(r.st) /\ ans' = [q |-> "all", k |-> Root, ok |-> r.st.ok, a |-> r.nodes]
List == LET r == LKids(Root, St) IN Take(r.st) /\ ans' = [q |-> "pages", k |-> Root, ok |-> r.st.ok, a |-> r.st.seen]

Layouts == {P \in SUBSET Ks : Root \in P}
Init ==
    /\ pg \in Layouts
    /\ nd \in UNION {[S -> pg] : S \in SUBSET Ks}
    /\ \A k \in DOMAIN nd : BelowOrSelf(k, nd[k])
    /\ broken \in {B \in SUBSET pg : Cardinality(B) <= MaxBad}
    /\ seen = {Root} /\ loaded = {} /\ ans = [q |-> "", k |-> Root, ok |-> TRUE, a |-> {}]
Next == /\ UNCHANGED <<pg, nd, broken>>
        /\ (\E k \in Ks \cup Strangers : Find(k) \/ Kids(k)) \/ All \/ List
Spec == Init /\ [][Next]_vars

AsSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : RangeOf(s) = S
AnswerOk ==
    LET c == C IN
    CASE ans.q = "" -> TRUE
      [] ~ans.ok -> c.bad # {}
      [] ans.q = "find" -> FindOk(c, ans.k, ans.a)
      [] ans.q = "kids" -> KidsOk(c, ans.k, AsSeq(ans.a))
      [] ans.q = "all" -> AllOk(c, AsSeq(ans.a))
      [] ans.q = "pages" -> PagesAre(c, AsSeq(ans.a))
LoadedSeen == loaded \subseteq seen /\ seen \subseteq Reach
=============================================================================
