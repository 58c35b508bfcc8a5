------------------------------- MODULE MCWriter -------------------------------
(* CopcWriter with small constants: every history over a few keys and pages.     *)
EXTENDS CopcWriter, TLC

CONSTANTS MaxChunks, MaxMoves, WithBad, Kinds
VARIABLE moves

A == <<1, 0, 0, 0>>
B == <<1, 1, 0, 0>>
AA == <<2, 1, 0, 1>>
AAA == <<3, 2, 0, 2>>
Outside == <<1, 2, 0, 0>>
KeySet == {Root, A, AA, AAA, B} \cup (IF WithBad THEN {NoKey, Outside} ELSE {})
PageSet == {Root, A, AA, B} \cup (IF WithBad THEN {NoKey, Outside} ELSE {})
Cfg == [copc |-> TRUE, fmt |-> 6, ebitems |-> 0, ebbytes |-> 0, ext |-> FALSE, wkt |-> 0]
(* kinds of data offered: good raw bytes, a ragged block, an empty block, a       *)
(* compressed chunk, one with no points, one with no bytes, points, points of     *)
(* another layout, no points                                                      *)
HowOf(kind) == CASE kind \in {"raw", "ragged", "empty"} -> "raw" [] kind \in {"comp", "nopoints", "nodata"} -> "comp" [] OTHER -> "pts"
LenOf(kind) == CASE kind = "raw" -> 30 [] kind = "ragged" -> 31 [] kind \in {"comp", "nopoints"} -> 10 [] OTHER -> 0
NOf(kind) == IF kind \in {"comp", "misfit", "pts", "nodata"} THEN 1 ELSE 0
FitsOf(kind) == kind # "misfit"

Offset == 1000 + 10 * Len(log)

mvars == <<wvars, moves>>
Init == WInit(Cfg) /\ moves = 0
DoAdd(k, p, kind) == /\ Len(log) < MaxChunks
                     /\ Add(k, p, HowOf(kind), [raw |-> kind, plain |-> kind, rows |-> <<>>], LenOf(kind), NOf(kind), FitsOf(kind), Offset, 10)
                     /\ UNCHANGED moves
DoAddRefused(k, p, kind) == AddRefused(k, p, HowOf(kind), LenOf(kind), NOf(kind), FitsOf(kind)) /\ UNCHANGED moves
DoMove(k, p) == moves < MaxMoves /\ Move(k, p) /\ moves' = moves + 1
DoMoveRefused(k, p) == MoveRefused(k, p) /\ UNCHANGED moves
DoClose == Close /\ UNCHANGED moves
DoDestroy == Destroy /\ UNCHANGED moves
Next ==
    \/ \E k \in KeySet, p \in PageSet, d \in Kinds : DoAdd(k, p, d) \/ DoAddRefused(k, p, d)
    \/ \E k \in KeySet, p \in PageSet : DoMove(k, p) \/ DoMoveRefused(k, p)
    \/ DoClose \/ DoDestroy
Spec == Init /\ [][Next]_mvars

FrozenM == [][final # <<>> => final' = final]_mvars
NeverReopenedM == [][phase # "open" => phase' # "open" /\ log' = log]_mvars
(* what a refused operation is asked to do it must not do *)
RefusedKeepsFile == [][(phase = "open" /\ log' = log /\ moves' = moves /\ phase' = "open") => nodes' = nodes]_mvars
=============================================================================
