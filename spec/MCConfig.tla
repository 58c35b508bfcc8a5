------------------------------- MODULE MCConfig -------------------------------
EXTENDS ConfigStore, TLC
CONSTANTS Names, MaxSteps, MaxSets
VARIABLES steps, sets
Eb1 == [t |-> 3, o |-> 0, tok |-> 1]
Eb2 == [t |-> 0, o |-> 5, tok |-> 2]
Ebs == {<<>>, <<Eb1>>, <<Eb2>>}
Overs == {[x \in {} |-> 0], [wkt |-> "w2"], [fmt |-> 8], [fmt |-> 5], [eb |-> <<Eb2>>], [eb |-> <<>>, on |-> TRUE], [fmt |-> 6, scale |-> "v1"]}
Step(A) == steps < MaxSteps /\ steps' = steps + 1 /\ A
SetStep(A) == sets < MaxSets /\ sets' = sets + 1 /\ A
Free(n) == ~Live(n) /\ n \notin DOMAIN pens
MCInit == CInit /\ steps = 0 /\ sets = 0
MCNext ==
    \/ \E n \in Names : Free(n) /\ UNCHANGED sets /\ Step(
        \/ \E k \in {"cw", "lw"}, fmt \in {5, 7}, eb \in Ebs, on \in BOOLEAN :
              New(n, k, fmt, "scale0", "zero", "w1", eb, on) \/ NewRefused(fmt, eb)
        \/ \E k \in {"cw", "lw"}, f \in DOMAIN objs : Copy(n, k, f)
        \/ \E f \in DOMAIN objs, o \in Overs : Kind(f) = "cw" /\ ((\E v \in OpenValues(AsCopc(objs[f], "wr"), IF OverOk(objs[f], o) THEN o ELSE [x \in {} |-> 0]) : Open(n, f, o, v)) \/ OpenRefused(f, o))
        \/ \E f \in DOMAIN objs : Kind(f) = "lw" /\ OpenLaz(n, f)
        \/ \E w \in DOMAIN files, k \in {"cr", "lr"} : Read(n, w, k, NoPos, FALSE, <<1, 2>>)
        \/ \E f \in DOMAIN objs : Kind(f) \in CopcKinds /\ TakeExtents(n, f))
    \/ \E n \in DOMAIN objs : UNCHANGED steps /\ SetStep(
        \/ Kind(n) \in Mutable /\ (SetField(n, "guid", <<65, 0>>) \/ GpsBit(n))
        \/ Kind(n) \in {"cw", "wr", "ext"} /\ \E d \in {"X", "Red", "Nir", "ExtraBytes"} :
              LET q == <<1, 2, 0, 4>> IN
              \E val \in (IF d = "ExtraBytes" THEN {<<>>, <<q>>} ELSE {q}) : SetExtent(n, d, val) \/ SetExtentRefused(n, d, val))
    \/ \E w \in DOMAIN pens : UNCHANGED <<steps, sets>> /\ ((pens[w].n = 0 /\ Write(w, 1)) \/ Finish(w, <<1, 2>>))
MCSpec == MCInit /\ [][MCNext]_<<cvars, steps, sets>>
TypeOk == \A n \in DOMAIN objs : Kind(n) \in ConfigKinds \cup {"hdr", "ext"}
AllCoherent == \A n \in DOMAIN objs : Kind(n) \in ConfigKinds \ {"lr"} => Coherent(objs[n])
=============================================================================
