---------------------------- MODULE MCAllocRace ----------------------------
(* Concurrent programs on a metered allocator: the smallest are explored here; all of them are run on the code, under many schedules *)
EXTENDS AllocRace, TLC, Json
CONSTANTS MaxExplored, MaxThreads, MaxOps   \* explored: programs of up to so many operations and threads

Op4(o, b, n, s) == [o |-> o, b |-> b, n |-> n, s |-> s]
Amount(t) == CASE t = 1 -> 1000 [] t = 2 -> 2000 [] t = 3 -> 4000 [] OTHER -> 8000
\* of the thread t: own blocks are 2t and 2t+1; 0 and 1 were there before
OpOf(x, t) == CASE x = "A" -> Op4("alloc", 2 * t, Amount(t), 0)
                [] x = "Z" -> Op4("zalloc", 2 * t + 1, Amount(t) + 100, 0)
                [] x = "F" -> Op4("free", 2 * t, 0, 0)
                [] x = "f" -> Op4("free", 0, 0, 0)
                [] x = "R" -> Op4("realloc", 1, 50, 0)
                [] x = "r" -> Op4("realloc", 1, 700, 0)
                [] x = "S" -> Op4("save", 0, 0, t)
                [] x = "Q" -> Op4("query", 0, 0, 0)
                [] x = "q" -> Op4("query", 0, 0, t)
Lists == <<<<"A">>, <<"A", "F">>, <<"Z">>, <<"f">>, <<"R">>, <<"r">>, <<"S">>, <<"Q">>, <<"S", "q">>, <<"A", "Q">>, <<"S", "A", "q">>, <<"A", "F", "A">>, <<"r", "R">>>>
L == 1..Len(Lists)
Sum(q) == LET RECURSIVE Up(_)
              Up(i) == IF i = 0 THEN 0 ELSE Len(q[i]) + Up(i - 1)
          IN Up(Len(q))
Uses(q, x) == Cardinality({i \in 1..Len(q) : \E j \in 1..Len(q[i]) : q[i][j] \in x})
Mixes == {q \in {<<Lists[a], Lists[b]>> : a \in L, b \in L} \cup {<<Lists[a], Lists[b], Lists[c]>> : a \in L, b \in L, c \in L} :
            /\ Sum(q) <= MaxOps /\ Uses(q, {"f"}) <= 1 /\ Uses(q, {"R", "r"}) <= 1
            /\ Uses(q, {"A", "Z", "f", "R", "r"}) >= 1}
Ordered(q) == \A i \in 1..Len(q) - 1 : (CHOOSE a \in L : Lists[a] = q[i]) <= (CHOOSE a \in L : Lists[a] = q[i + 1])
Program(n, q) ==
  [n |-> n, setup |-> <<Op4("alloc", 0, 100, 0), Op4("alloc", 1, 200, 0), Op4("save", 0, 0, 0)>>,
   threads |-> [i \in 1..Len(q) |-> [j \in 1..Len(q[i]) |-> OpOf(q[i][j], i)]],
   final |-> <<Op4("query", 0, 0, 0), Op4("save", 0, 0, 5), Op4("alloc", 10, 8000, 0), Op4("free", 10, 0, 0), Op4("query", 0, 0, 5), Op4("query", 0, 0, 0)>>]
Programs == {Program(n, q) : n \in {1, 4}, q \in {x \in Mixes : Ordered(x)}}

MCInit == \E p \in Programs : Init(p)
Explored == Sum(prog.threads) <= MaxExplored /\ Len(prog.threads) <= MaxThreads
MCNext == Explored /\ (NextStage \/ \E t \in DOMAIN at : Step(t))
MCSpec == MCInit /\ [][MCNext]_avars
Emit == stage = 1 /\ at[0] = 1 /\ pc[0] = "call" => PrintT("SCN " \o ToJson([kind |-> "race", n |-> prog.n, setup |-> prog.setup, threads |-> prog.threads, final |-> prog.final]))
=============================================================================
