----------------------------- MODULE FeatQueue ------------------------------
(* Feature extraction: P producers read images into a bounded queue, K        *)
(* consumers extract features; W threads run these tasks in order.            *)
(* The producer that has read the last image appends the end mark 0, which    *)
(* every consumer puts back for the others before it leaves.                  *)
(* Atomic: counting an image and looking at the count is one step.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, P, K, W, Cap, Atomic, Emit
VARIABLES queue, task, pc, todo, cnt, done, next, seen, log
vars == <<queue, task, pc, todo, cnt, done, next, seen, log>>
Tasks == 1..(P + K)
IsProducer(t) == t <= P
Chunk == (N + P - 1) \div P
Images(t) == {i \in 1..N : (i - 1) \div Chunk = t - 1}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Full == Cap > 0 /\ Len(queue) >= Cap
Init == /\ queue = <<>>
        /\ task = [w \in 1..W |-> 0]
        /\ pc = [t \in Tasks |-> "wait"]
        /\ todo = [t \in Tasks |-> IF IsProducer(t) THEN Images(t) ELSE {}]
        /\ cnt = 0
        /\ done = [i \in 1..N |-> 0]
        /\ next = 1
        /\ seen = [t \in Tasks |-> 0]
        /\ log = <<>>
Log(x) == log' = Append(log, x)
Start(w) == /\ task[w] = 0
            /\ next <= P + K
            /\ task' = [task EXCEPT ![w] = next]
            /\ pc' = [pc EXCEPT ![next] = "run"]
            /\ next' = next + 1
            /\ UNCHANGED <<queue, todo, cnt, done, seen, log>>
Leave(w, t) == /\ pc' = [pc EXCEPT ![t] = "end"]
               /\ task' = [task EXCEPT ![w] = 0]
(* producer *)
Put(w, t) == /\ IsProducer(t) /\ pc[t] = "run" /\ todo[t] # {} /\ ~Full
             /\ LET i == Min(todo[t]) IN
                  /\ queue' = Append(queue, i)
                  /\ todo' = [todo EXCEPT ![t] = @ \ {i}]
                  /\ Log(<<"read", i>>)
             /\ pc' = [pc EXCEPT ![t] = "count"]
             /\ UNCHANGED <<task, cnt, done, next, seen>>
Count(w, t) == /\ pc[t] = "count"
               /\ cnt' = cnt + 1
               /\ seen' = [seen EXCEPT ![t] = cnt + 1]
               /\ pc' = [pc EXCEPT ![t] = IF Atomic THEN "test" ELSE "look"]
               /\ UNCHANGED <<queue, task, todo, done, next, log>>
Look(w, t) == /\ pc[t] = "look"
              /\ seen' = [seen EXCEPT ![t] = cnt]
              /\ pc' = [pc EXCEPT ![t] = "test"]
              /\ UNCHANGED <<queue, task, todo, cnt, done, next, log>>
Test(w, t) == /\ pc[t] = "test"
              /\ \/ seen[t] # N /\ pc' = [pc EXCEPT ![t] = "run"] /\ UNCHANGED queue
                 \/ seen[t] = N /\ ~Full /\ queue' = Append(queue, 0) /\ pc' = [pc EXCEPT ![t] = "run"]
              /\ UNCHANGED <<task, todo, cnt, done, next, seen, log>>
Finish(w, t) == /\ IsProducer(t) /\ pc[t] = "run" /\ todo[t] = {}
                /\ Leave(w, t) /\ UNCHANGED <<queue, todo, cnt, done, next, seen, log>>
(* consumer *)
Get(w, t) == /\ ~IsProducer(t) /\ pc[t] = "run" /\ queue # <<>>
             /\ queue' = Tail(queue)
             /\ IF Head(queue) = 0 THEN pc' = [pc EXCEPT ![t] = "back"] /\ UNCHANGED <<done, log>>
                ELSE done' = [done EXCEPT ![Head(queue)] = @ + 1] /\ UNCHANGED pc /\ Log(<<"save", Head(queue)>>)
             /\ UNCHANGED <<task, todo, cnt, next, seen>>
Back(w, t) == /\ pc[t] = "back" /\ ~Full
              /\ queue' = Append(queue, 0)
              /\ Leave(w, t) /\ UNCHANGED <<todo, cnt, done, next, seen, log>>
Finished == next > P + K /\ \A t \in Tasks : pc[t] = "end"
Next == \/ \E w \in 1..W : Start(w)
        \/ \E w \in 1..W : task[w] # 0 /\ LET t == task[w] IN Put(w, t) \/ Count(w, t) \/ Look(w, t) \/ Test(w, t) \/ Finish(w, t) \/ Get(w, t) \/ Back(w, t)
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
View == <<queue, task, pc, todo, cnt, done, next, seen>>
OnceEach == \A i \in 1..N : done[i] <= 1
AllAtEnd == Finished => \A i \in 1..N : done[i] = 1
OneMark == Cardinality({k \in 1..Len(queue) : queue[k] = 0}) <= 1
(* memory: images read and not yet saved *)
Held == Cardinality({i \in 1..N : done[i] = 0} \ UNION {todo[t] : t \in 1..P})
Bounded == Cap > 0 => Len(queue) <= Cap
Ends == <>Finished
EmitLog == (Emit /\ Finished /\ log # <<>>) => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
