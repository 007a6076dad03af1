------------------------------- MODULE MCRing -------------------------------
(* Concurrent programs: the smallest are explored here; all of them are run on the code, under many schedules *)
EXTENDS RingBuffer, TLC, Json, FiniteSets
CONSTANTS Family, MaxExplored     \* explored: programs with up to so many operations on the threads

OpOf(x, v) == CASE x = "E" -> [o |-> "enq", c |-> 0, v |-> v]
                [] x = "D" -> [o |-> "deq", c |-> 0, v |-> 0]
                [] x = "P" -> [o |-> "peek", c |-> 0, v |-> 0]
                [] x = "C" -> [o |-> "cons", c |-> 0, v |-> 0]
                [] x = "c" -> [o |-> "cons", c |-> 1, v |-> 0]
                [] x = "d" -> [o |-> "deq", c |-> 1, v |-> 0]
                [] x = "p" -> [o |-> "peek", c |-> 1, v |-> 0]
Number(s, base) == [i \in 1..Len(s) |-> OpOf(s[i], base + i)]
Es(k) == [i \in 1..k |-> "E"]

Lists == CASE Family = "delivery" -> <<<<"E">>, <<"E", "E">>, <<"D">>, <<"D", "D">>, <<"P">>, <<"D", "P">>, <<"E", "D">>, <<"c", "d">>, <<"P", "E", "P">>>>
           [] Family = "overflow" -> <<<<"E">>, <<"E", "E">>, <<"D">>, <<"D", "D">>, <<"P">>, <<"P", "D">>, <<"E", "D">>, <<"D", "P">>>>
           [] Family = "memory" -> <<<<"E">>, <<"E", "E">>, <<"D", "D">>, <<"P">>, <<"P", "D">>, <<"E", "D", "D">>>>
\* what is there to be consumed starts in the middle of the ring
Turned(n, k) == IF n = 2 THEN {<<"C", "E", "D">> \o Es(i) : i \in k} ELSE {}
Setups(n) == CASE Family = "delivery" -> {<<"C">> \o Es(k) : k \in 0..n-1} \cup Turned(n, 0..n-1)
               [] Family = "overflow" -> {<<"C">> \o Es(k) : k \in (IF n = 1 THEN 0 ELSE n - 1)..n+1} \cup Turned(n, n-1..n)
               [] Family = "memory" -> {<<"C">> \o Es(k) : k \in {0, 1, n}} \cup Turned(n, {n})
Ns == CASE Family = "delivery" -> {2, 3, 4} [] Family = "overflow" -> {1, 2, 3} [] Family = "memory" -> {1, 2, 3}
L == 1..Len(Lists)
Total(q) == LET RECURSIVE Sum(_)
                Sum(i) == IF i = 0 THEN 0 ELSE Len(Lists[q[i]]) + Sum(i - 1)
            IN Sum(Len(q))
\* 2 or 3 threads; some producer, some consumer
Mixes == {q \in {<<a, b>> : a \in L, b \in L} \cup {<<a, b, c>> : a \in L, b \in L, c \in L} :
            /\ \A i \in 1..Len(q) - 1 : q[i] <= q[i + 1]
            /\ Total(q) <= 6
            /\ Cardinality({i \in 1..Len(q) : Lists[q[i]][1] = "c"}) <= 1
            /\ \E i \in 1..Len(q) : \E j \in 1..Len(Lists[q[i]]) : Lists[q[i]][j] \in {"D", "P", "d"}}
Program(n, s, q) ==
  [n |-> n, setup |-> Number(s, 0), threads |-> [i \in 1..Len(q) |-> Number(Lists[q[i]], 10 * i)],
   final |-> <<OpOf("P", 0)>> \o [i \in 1..n+1 |-> OpOf("D", 0)]]
Programs == UNION {{Program(n, s, q) : s \in Setups(n), q \in Mixes} : n \in Ns}

Explored == LET RECURSIVE Sum(_)
                Sum(i) == IF i = 0 THEN 0 ELSE Len(prog.threads[i]) + Sum(i - 1)
            IN Sum(Len(prog.threads)) <= MaxExplored /\ prog.n <= 2
MCInit == \E p \in Programs : Init(p)
MCNext == Explored /\ (NextStage \/ \E t \in DOMAIN at : Step(t))
MCSpec == MCInit /\ [][MCNext]_rvars
\* operations that wait always have someone to wait for
NoDeadlock == Explored /\ stage < 4 => \/ \E t \in DOMAIN at : Runs(t) /\ at[t] <= Len(Ops(t)) /\ ~(pc[t] = "publish" /\ tail # reg[t].k) /\ ~(pc[t] = "await" /\ reg[t].k - tail >= prog.n)
                                       \/ \A t \in DOMAIN at : Runs(t) => at[t] > Len(Ops(t))
Emit == stage = 1 /\ at[0] = 1 /\ pc[0] = "call" => PrintT("SCN " \o ToJson([kind |-> "ring", n |-> prog.n, setup |-> prog.setup, threads |-> prog.threads, final |-> prog.final]))
=============================================================================
