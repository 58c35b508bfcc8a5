-------------------------------- MODULE GenCodec -------------------------------
EXTENDS Codec, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Pick(X) == RandomElement(IF Len(hist) >= 0 THEN X ELSE {})
Chance(p) == Pick(1..100) <= p
Names == {"s1", "s2", "s3"}
Lays == {<<f, e>> : f \in 6..8, e \in {0, 0, 1, 2, 3}} \cup {<<5, 0>>, <<9, 0>>, <<6, 4>>}
GInit == CInit /\ hist = <<>> /\ done = FALSE
H(e) == hist' = Append(hist, e) /\ UNCHANGED done
(* a block is known by its number; its records are chosen later *)
DoNew == \E s \in {Pick(Names)} : NewStream(s) /\ H([op |-> "new", s |-> s])
DoPut == \E s \in {Pick(DOMAIN streams)}, lay \in {Pick(Lays)}, b \in {Pick(0..7)}, whole \in {Chance(85)}, hdr \in {Chance(50)} :
    /\ IF Refused(lay, whole) THEN UNCHANGED cvars ELSE Put(s, lay, <<b>>, <<lay, b>>)
    /\ H([op |-> "put", s |-> s, lay |-> lay, b |-> b, whole |-> whole, hdr |-> hdr])
DoEnc == \E lay \in {Pick(Lays)}, b \in {Pick(0..7)}, whole \in {Chance(85)}, hdr \in {Chance(50)} :
    /\ IF Refused(lay, whole) THEN UNCHANGED cvars ELSE Encode(lay, <<b>>, <<lay, b>>)
    /\ H([op |-> "enc", lay |-> lay, b |-> b, whole |-> whole, hdr |-> hdr])
Full == {s \in DOMAIN streams : streams[s] # <<>>}
DoGet == \E s \in {Pick(Full)} : \E i \in {Pick(1..Len(streams[s]))}, hdr \in {Chance(50)}, part \in {Pick({100, 100, 50, 0})} :
    UNCHANGED cvars /\ H([op |-> "get", s |-> s, i |-> i, hdr |-> hdr, part |-> part])
DoDec == \E c \in {Pick(codes)}, hdr \in {Chance(50)}, part \in {Pick({100, 100, 50, 0})} :
    UNCHANGED cvars /\ H([op |-> "dec", lay |-> c.lay, b |-> c.rows[1], hdr |-> hdr, part |-> part])
GStep == Len(hist) < Depth /\ \E r \in {Pick(1..100)} :
    CASE DOMAIN streams = {} \/ r <= 8 -> DoNew
      [] r <= 40 -> DoPut
      [] r <= 55 -> DoEnc
      [] r <= 85 -> IF Full = {} THEN DoPut ELSE DoGet
      [] OTHER -> IF codes = {} THEN DoEnc ELSE DoDec
GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<cvars, hist>>
GSpec == GInit /\ [][GStep \/ GEnd]_<<cvars, hist, done>>
Emit == done => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
