----------------------------- MODULE TracePyValues -----------------------------
(* Recorded uses of the Python interface's values have to be behaviours of PyValues. *)
EXTENDS PyValues, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == VInit /\ l = 1
TBegin == IsEvent("Begin") /\ objs' = <<>> /\ names' = [n \in {} |-> 0] /\ saved' = [t \in {} |-> 0]
Same == UNCHANGED vars
TMake == IsEvent("Make") /\ Make(E.n, E.kind, E.v)
TPart == IsEvent("Part") /\ Part(E.n, E.m, E.a)
TPut == IsEvent("Put") /\ (IF E.ok THEN Put(E.n, E.a, E.val) ELSE ~PutOk(E.n, E.a, E.val) /\ Same)
TPutPart == IsEvent("PutPart") /\ PutPart(E.n, E.a, E.m)
TPoke == IsEvent("Poke") /\ Poke(E.n, E.i, E.b)
TExtend == IsEvent("Extend") /\ Extend(E.n, E.bs)
TSave == IsEvent("Save") /\ Save(E.t, E.ns)
(* seen: what they were in the other process they have been to *)
TLoad == /\ IsEvent("Load") /\ Load(E.ns, E.t)
         /\ Len(E.seen) \in {0, Len(E.ns)}
         /\ TRUE = \A i \in 1..Len(E.seen) : E.seen[i].kind = saved[E.t][i].kind /\ E.seen[i].v = saved[E.t][i].v
TCopy == IsEvent("Copy") /\ Copy(E.n, E.m)
TGet == IsEvent("Get") /\ Has(E.n) /\ E.kind = Kind(E.n) /\ E.v = Value(E.n) /\ Same
Vague == {"b:7ff8000000000000", "b:0000000000000000", "b:8000000000000000"}
TEq == /\ IsEvent("Eq") /\ Same
       /\ (Kind(E.a) = "vec" => \A f \in VecFields : Value(E.a)[f] \notin Vague /\ Value(E.b)[f] \notin Vague) => (E.v = Equal(E.a, E.b))
       /\ (Kind(E.a) = "key" /\ Equal(E.a, E.b)) => E.heq
(* what can't be sent is refused; what can arrives unchanged *)
TSend == IsEvent("Send") /\ Same /\ (E.ok => E.same)
TNext == TBegin \/ TMake \/ TPart \/ TPut \/ TPutPart \/ TPoke \/ TExtend \/ TSave \/ TLoad \/ TCopy \/ TGet \/ TEq \/ TSend
TSpec == TInit /\ [][TNext]_tvars
Matched == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
