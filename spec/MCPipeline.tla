------------------------------ MODULE MCPipeline ------------------------------
(* The design: batches of tasks are queued, started by the workers, finished in   *)
(* any order and delivered as they finish; a failed task stops the delivery.      *)
(* Whatever the order, the outcome is the one Pipeline.tla demands.               *)
EXTENDS Pipeline, TLC
CONSTANTS MaxItems, MaxWorkers, Whats

VARIABLES c, chunk, workers,
          pc,              \* "choose", "submit", "collect", "drain", "returned", "raised"
          next,            \* first item not submitted yet
          batch,           \* items of the current batch not delivered yet
          queue, running, fin,
          out, payloads, worked, err, updates
vars == <<c, chunk, workers, pc, next, batch, queue, running, fin, out, payloads, worked, err, updates>>

(* the i-th item has i - 1 points *)
Item(i, bad) == [key |-> <<3, i, 0, 0>>, page |-> <<i % 2, 0, 0, 0>>, pts |-> [j \in 1..(i - 1) |-> <<i, -j, i * j, j % 2, 10 * i + j>>],
                 err |-> IF i \in bad THEN ToString(i) ELSE ""]
Call(n, bad, what, classes) ==
    [items |-> [i \in 1..n |-> Item(i, bad)], what |-> what, classes |-> classes, shift |-> <<0, 0, 1>>, update |-> TRUE,
     bounds |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, bad |-> "", callback |-> TRUE, logged |-> TRUE, progress |-> TRUE, chosen |-> TRUE]
Start0(cc, k, w) ==
    /\ c = cc /\ chunk = k /\ workers = w /\ pc = "submit" /\ next = 1 /\ batch = {} /\ queue = <<>> /\ running = {} /\ fin = {}
    /\ out = <<>> /\ payloads = <<>> /\ worked = <<>> /\ err = "" /\ updates = 0
Init == \E n \in 0..MaxItems : \E bad \in SUBSET (1..n) : \E what \in Whats : \E classes \in {<<>>, <<1>>} : \E k \in 1..MaxItems : \E w \in 1..MaxWorkers :
            Start0(Call(n, bad, what, classes), k, w)

N == Len(c.items)
Submit ==
    /\ pc = "submit" /\ next <= N /\ Cardinality(batch) < chunk
    /\ batch' = batch \cup {next} /\ queue' = Append(queue, next) /\ next' = next + 1
    /\ UNCHANGED <<c, chunk, workers, pc, running, fin, out, payloads, worked, err, updates>>
Collect ==
    /\ pc = "submit" /\ (next > N \/ Cardinality(batch) = chunk)
    /\ pc' = IF batch = {} THEN "returned" ELSE "collect"
    /\ UNCHANGED <<c, chunk, workers, next, batch, queue, running, fin, out, payloads, worked, err, updates>>
Start ==
    /\ queue # <<>> /\ Cardinality(running) < workers
    /\ running' = running \cup {Head(queue)} /\ queue' = Tail(queue)
    /\ UNCHANGED <<c, chunk, workers, pc, next, batch, fin, out, payloads, worked, err, updates>>
Finish(i) ==
    /\ i \in running
    /\ running' = running \ {i} /\ fin' = fin \cup {i} /\ updates' = updates + 1
    /\ worked' = Append(worked, c.items[i].key)
    /\ UNCHANGED <<c, chunk, workers, pc, next, batch, queue, out, payloads, err>>
Deliver(i) ==
    /\ pc = "collect" /\ i \in batch \cap fin
    /\ IF c.items[i].err # "" THEN err' = c.items[i].err /\ pc' = "drain" /\ UNCHANGED <<batch, out, payloads>>
       ELSE /\ batch' = batch \ {i} /\ out' = Append(out, i)
            /\ payloads' = Append(payloads, [key |-> c.items[i].key, pts |-> Result(c, i)])
            /\ pc' = IF batch' = {} THEN "submit" ELSE pc
            /\ UNCHANGED err
    /\ UNCHANGED <<c, chunk, workers, next, queue, running, fin, worked, updates>>
Raise ==
    /\ pc = "drain" /\ running = {} /\ queue = <<>>
    /\ pc' = "raised"
    /\ UNCHANGED <<c, chunk, workers, next, batch, queue, running, fin, out, payloads, worked, err, updates>>
Next == Submit \/ Collect \/ Start \/ (\E i \in 1..MaxItems : Finish(i)) \/ (\E i \in 1..MaxItems : Deliver(i)) \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what the call hands back, built from what was delivered, in that order *)
Rows == [j \in 1..Len(out) |-> [key |-> c.items[out[j]].key, page |-> c.items[out[j]].page, pts |-> Result(c, out[j])]]
Full == SelectSeq(Rows, LAMBDA r : r.pts # <<>>)
Lows(a) == {Least({p[a] : p \in {Full[j].pts[k] : k \in 1..Len(Full[j].pts)}}) : j \in 1..Len(Full)}
Highs(a) == {Most({p[a] : p \in {Full[j].pts[k] : k \in 1..Len(Full[j].pts)}}) : j \in 1..Len(Full)}
Got ==
    CASE c.what = "concat" -> [points |-> Flat([j \in 1..Len(Rows) |-> Coords(Rows[j].pts)])]
      [] c.what = "map" -> [map |-> [j \in 1..Len(Full) |-> [key |-> Full[j].key, pts |-> Coords(Full[j].pts)]]]
      [] c.what = "copc" -> [nodes |-> Full, bounds |-> IF Full = <<>> THEN <<<<0, 0, 0>>, <<0, 0, 0>>>>
                             ELSE <<[a \in 1..3 |-> Least(Lows(a))], [a \in 1..3 |-> Most(Highs(a))]>>]
      [] OTHER -> [none |-> 0]
Correct == pc \in {"returned", "raised"} =>
    EndOk(c, [ok |-> pc = "returned", err |-> err, got |-> Got, worked |-> worked, updates |-> updates, resets |-> <<>>], payloads)
Queued == Len(queue) + Cardinality(running) <= chunk
Ends == <>(pc \in {"returned", "raised"})
=============================================================================
