------------------------------- MODULE GenWriter -------------------------------
(* Random behaviours of the writer as call histories for the real one.  Every     *)
(* step is an action of CopcWriter; the weights say how often which is tried.     *)
EXTENDS MCWriter, Json
CONSTANTS Depth, WAdd, WMove, WBadAdd, WBadMove, WClose   \* weights, adding up to 100
VARIABLES hist, done
gvars == <<mvars, hist, done>>

BB == <<2, 2, 0, 1>>
BBB == <<3, 4, 1, 2>>
C == <<1, 0, 1, 1>>
Keys6 == {Root, A, AA, AAA, B, BB, BBB, C}
GoodPairs == {x \in Keys6 \X Keys6 : BelowOrSelf(x[1], x[2])}
GoodKinds == {"raw", "comp", "pts"}
AllKinds == GoodKinds \cup {"ragged", "empty", "nopoints", "misfit", "nodata", "nopts"}
BadKeys == Keys6 \cup {NoKey, Outside}
(* state dependent on purpose: otherwise TLC draws once only *)
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})

GInit == Init /\ hist = <<>> /\ done = FALSE
H(op, k, p, d) == hist' = Append(hist, [op |-> op, k |-> k, p |-> p, d |-> d]) /\ UNCHANGED done
TryAdd(k, p, d) == (DoAdd(k, p, d) \/ DoAddRefused(k, p, d)) /\ H("add", k, p, d)
TryMove(k, p) ==
    /\ IF phase = "open" /\ MoveOk(k, p) THEN DoMove(k, p) ELSE UNCHANGED mvars
    /\ H("move", k, p, "")
GStep ==
    /\ Len(hist) < Depth
    /\ \E r \in {Pick(1..100)} :
        IF r <= WAdd \/ phase = "gone"
        THEN \E x \in {Pick(GoodPairs)}, d \in {Pick(GoodKinds)} :
                IF phase = "gone" THEN H("look", x[1], x[2], "") /\ UNCHANGED mvars ELSE TryAdd(x[1], x[2], d)
        ELSE IF r <= WAdd + WMove
        THEN \E x \in {Pick(LET K == {x \in GoodPairs : x[1] \in DOMAIN nodes} IN IF K = {} THEN GoodPairs ELSE K)} : TryMove(x[1], x[2])
        ELSE IF r <= WAdd + WMove + WBadAdd
        THEN \E k \in {Pick(BadKeys)}, p \in {Pick(BadKeys)}, x \in {Pick(GoodPairs)}, d \in {Pick(AllKinds)}, b \in {Pick({0, 1})} :
                IF b = 0 THEN TryAdd(k, p, d) ELSE TryAdd(x[1], x[2], d)
        ELSE IF r <= WAdd + WMove + WBadAdd + WBadMove
        THEN \E k \in {Pick(BadKeys)}, p \in {Pick(BadKeys)} : TryMove(k, p)
        ELSE IF Len(hist) * 3 < Depth
        THEN H("look", A, A, "") /\ UNCHANGED mvars
        ELSE IF r % 3 = 0 THEN DoDestroy /\ H("destroy", Root, Root, "")
        ELSE DoClose /\ H("close", Root, Root, "")
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<mvars, hist>>
GNext == GStep \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
Emit == done => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
