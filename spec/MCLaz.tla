--------------------------------- MODULE MCLaz ---------------------------------
EXTENDS LazSession, TLC
CONSTANTS MaxChunks
Cfg == [copc |-> FALSE, fmt |-> 6, ebitems |-> 0, ebbytes |-> 0, ext |-> FALSE, wkt |-> 0]
Good == {"pts1", "pts2", "comp"}
Kinds == Good \cup {"nopts", "misfit", "nopoints", "nodata"}
HowOf(k) == IF k \in {"comp", "nopoints", "nodata"} THEN "comp" ELSE "pts"
NOf(k) == CASE k \in {"pts1", "comp", "misfit", "nodata"} -> 1 [] k = "pts2" -> 2 [] OTHER -> 0
LenOf(k) == IF k \in {"comp", "nopoints"} THEN 9 ELSE 0
FitsOf(k) == k # "misfit"
Init == LInit(Cfg)
DoWrite(k) == /\ Len(log) < MaxChunks
              /\ Write(HowOf(k), [raw |-> k, plain |-> k, rows |-> <<k>>], LenOf(k), NOf(k), FitsOf(k), 0, 0)
DoOther(k) == WriteNothing(HowOf(k), NOf(k)) \/ WriteRefused(HowOf(k), LenOf(k), NOf(k), FitsOf(k))
Next == (\E k \in Kinds : DoWrite(k) \/ DoOther(k)) \/ Close \/ Destroy
Spec == Init /\ [][Next]_lvars
Bound == Points <= 2 * MaxChunks
=============================================================================
