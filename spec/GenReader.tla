------------------------------- MODULE GenReader -------------------------------
(* Random layouts and query histories for the real reader. *)
EXTENDS MCReader, Json
CONSTANTS Depth, PageBias
VARIABLES hist, done
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Coin(n) == Pick(1..100) <= n
GInit == pg = {} /\ nd = <<>> /\ broken = {} /\ seen = {Root} /\ loaded = {} /\ ans = [q |-> "", k |-> Root, ok |-> TRUE, a |-> {}] /\ hist = <<>> /\ done = FALSE
Setup ==
    /\ pg = {}
    /\ pg' = {Root} \cup {k \in Ks : Coin(PageBias) /\ k \in Ks}
    /\ LET S == {k \in Ks : Coin(80) /\ k \in Ks} IN nd' = [k \in S |-> Pick({p \in pg' : BelowOrSelf(k, p)})]
    /\ broken' = IF Coin(70) THEN {} ELSE {Pick(pg')}
    /\ UNCHANGED <<seen, loaded, ans, hist, done>>
Ask == {"find", "find", "kids", "data", "comp", "pts"}
Step ==
    /\ pg # {} /\ Len(hist) < Depth
    /\ \E q \in {Pick(1..12)}, k \in {Pick(Ks \cup Strangers)} :
        /\ hist' = Append(hist, [q |-> CASE q <= 3 -> "find" [] q <= 5 -> "kids" [] q = 6 -> "all" [] q = 7 -> "pages" [] q = 8 -> "data" [] q = 9 -> "comp" [] q = 10 -> "pts" [] q = 11 -> "bynode" [] OTHER -> "other", k |-> k])
        /\ CASE q \in 4..5 -> Kids(k) [] q = 6 -> All [] q = 7 -> List [] OTHER -> Find(k)
    /\ UNCHANGED <<pg, nd, broken, done>>
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][Setup \/ Step \/ GEnd]_<<vars, hist, done>>
NodeList == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<[k |-> k, p |-> nd[k]]>> \o L(S \ {k}) IN L(DOMAIN nd)
Emit == done => PrintT(<<"BEHAVIOUR", ToJson([pages |-> pg, nodes |-> NodeList, broken |-> broken, hist |-> hist])>>)
=============================================================================
