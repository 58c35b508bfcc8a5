------------------------------ MODULE LazSession ------------------------------
(* A LAZ writing session: chunks of points are written one after the other (or    *)
(* refused); closing or destroying the writer completes the file, once.           *)
EXTENDS LasFile

VARIABLES cfg, phase, log, final
lvars == <<cfg, phase, log, final>>

LInit(c) == cfg = c /\ phase = "open" /\ log = <<>> /\ final = <<>>

(* what may be written: points of the file's layout, or a compressed chunk *)
Fine(how, len, n, fits) == n > 0 /\ fits /\ (how = "pts" \/ len > 0)
Nothing(how, n) == how = "pts" /\ n = 0

Write(how, data, len, n, fits, off, size) ==
    /\ phase = "open"
    /\ Fine(how, len, n, fits)
    /\ log' = Append(log, [how |-> how, data |-> data, n |-> n, off |-> off, size |-> size])
    /\ UNCHANGED <<cfg, phase, final>>
(* the same chunk several times in a row *)
WriteMany(how, data, len, n, fits, times) ==
    /\ phase = "open"
    /\ Fine(how, len, n, fits)
    /\ log' = log \o [i \in 1..times |-> [how |-> how, data |-> data, n |-> n, off |-> 0, size |-> 0]]
    /\ UNCHANGED <<cfg, phase, final>>
(* no points: nothing happens, with or without complaint *)
WriteNothing(how, n) == Nothing(how, n) /\ UNCHANGED lvars
WriteRefused(how, len, n, fits) ==
    /\ phase # "open" \/ ~Fine(how, len, n, fits)
    /\ UNCHANGED lvars

Points == Sum([i \in 1..Len(log) |-> log[i].n])
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s).data.rows \o Concat(Tail(s))

Complete == IF phase = "open" THEN final' = <<[log |-> log]>> ELSE UNCHANGED final
Close == phase # "gone" /\ phase' = "closed" /\ Complete /\ UNCHANGED <<cfg, log>>
Destroy == phase # "gone" /\ phase' = "gone" /\ Complete /\ UNCHANGED <<cfg, log>>

(* the parts of a file follow from what was written: chunks lie back to back *)
FileOk(f, part) ==
    /\ final # <<>>
    /\ CASE part = "head" -> HeaderOk(f, cfg) /\ VlrsOk(f, cfg) /\ LayoutOk(f) /\ OtherEvlrsOk(f, cfg)
         [] part = "chunks" ->
            /\ Len(f.chunks) = Len(final[1].log)
            /\ \A i \in 1..Len(f.chunks) :
                LET c == final[1].log[i] IN
                /\ f.chunks[i].n = c.n
                /\ IF c.how = "comp" THEN f.chunks[i].raw = c.data.raw ELSE f.chunks[i].dec = c.data.plain

Frozen == [][final # <<>> => final' = final]_lvars
Consistent == final # <<>> <=> phase # "open"
ChunkHasPoints == \A i \in 1..Len(log) : log[i].n > 0
=============================================================================
