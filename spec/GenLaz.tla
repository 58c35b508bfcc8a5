-------------------------------- MODULE GenLaz --------------------------------
EXTENDS MCLaz, Json
CONSTANTS Depth, WGood, WBad
VARIABLES hist, done
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
GInit == Init /\ hist = <<>> /\ done = FALSE
H(op, d) == hist' = Append(hist, [op |-> op, d |-> d]) /\ UNCHANGED done
Try(d) == IF phase = "gone" THEN UNCHANGED lvars /\ H("look", d) ELSE (DoWrite(d) \/ DoOther(d)) /\ H("write", d)
GStep ==
    /\ Len(hist) < Depth
    /\ \E r \in {Pick(1..100)} :
        IF r <= WGood THEN \E d \in {Pick(Good)} : Try(d)
        ELSE IF r <= WGood + WBad THEN \E d \in {Pick(Kinds)} : Try(d)
        ELSE IF Len(hist) * 3 < Depth \/ phase = "gone" THEN H("look", "") /\ UNCHANGED lvars
        ELSE IF r % 3 = 0 THEN Destroy /\ H("destroy", "")
        ELSE Close /\ H("close", "")
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<lvars, hist>>
GSpec == GInit /\ [][GStep \/ GEnd]_<<lvars, hist, done>>
Emit == done => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
