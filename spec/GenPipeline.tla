------------------------------ MODULE GenPipeline ------------------------------
(* Schedules: when tasks finish and in which order they are delivered. *)
EXTENDS MCPipeline, Json
CONSTANTS BadPercent
VARIABLES hist, done, plan
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
GInit == Start0(Call(0, {}, "read", <<>>), 1, 1) /\ hist = <<>> /\ done = FALSE /\ plan = <<>>
GChoose ==
    /\ plan = <<>>
    /\ \E n \in {Pick(0..MaxItems)} : \E r \in {Pick(1..100)} : \E b \in {Pick(1..MaxItems)} : \E k \in {Pick(1..(MaxItems + 1))} : \E w \in {Pick(1..MaxWorkers)} :
        \E what \in {Pick(Whats)} :
        LET bad == IF r <= BadPercent THEN {b} \cap (1..n) ELSE {} IN
        /\ plan' = [n |-> n, bad |-> bad, chunk |-> k, workers |-> w, what |-> what]
        /\ c' = Call(n, bad, what, <<>>) /\ chunk' = k /\ workers' = w
    /\ UNCHANGED <<pc, next, batch, queue, running, fin, out, payloads, worked, err, updates, hist, done>>
H(a, i) == hist' = Append(hist, <<a, i>>) /\ UNCHANGED <<done, plan>>
GStep ==
    /\ plan # <<>>
    /\ \/ Submit /\ H("submit", next)
       \/ Collect /\ UNCHANGED <<hist, done, plan>>
       \/ Start /\ UNCHANGED <<hist, done, plan>>
       \/ \E i \in 1..MaxItems : Finish(i) /\ H("finish", i)
       \/ \E i \in 1..MaxItems : Deliver(i) /\ H("deliver", i)
       \/ Raise /\ UNCHANGED <<hist, done, plan>>
GEnd == pc \in {"returned", "raised"} /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist, plan>>
GSpec == GInit /\ [][GChoose \/ GStep \/ GEnd]_<<vars, hist, done, plan>>
Emit == done => PrintT(<<"BEHAVIOUR", ToJson([plan |-> plan, hist |-> hist])>>)
=============================================================================
