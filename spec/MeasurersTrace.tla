--------------------------- MODULE MeasurersTrace ---------------------------
(* (0 stands for empty texts: nothing is made up in their place)
   Events: rb (round begins: k), re (round ended: results of 'after' rounds), bb/be (before step begins/ends), ab/ae (after step), p (the measured pass: given data g, returns data d) *)
EXTENDS Measurers, TLC, TraceBatch

VARIABLES tid, l, data, passed
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ StartWith(Tr.m) /\ data = 0 /\ passed = FALSE

Is(x) == l <= Len(Ev) /\ E.e = x
\* all steps of a round see the same data: the one the round was given
Sees == E.d = data
Step == \/ Is("bb") /\ BeforeBegin(E.m) /\ Sees /\ UNCHANGED <<data, passed>>
        \/ Is("be") /\ BeforeEnd(E.m, E.v) /\ UNCHANGED <<data, passed>>
        \/ Is("ab") /\ AfterBegin(E.m, E.v) /\ Sees /\ UNCHANGED <<data, passed>>
        \/ Is("ae") /\ AfterEnd(E.m, E.v) /\ UNCHANGED <<data, passed>>
        \/ Is("rb") /\ BeginRound(E.k) /\ data' = E.d /\ UNCHANGED passed
        \/ Is("re") /\ EndRound /\ UNCHANGED <<data, passed>>
                    /\ (round = "after" => E.r = [k \in 1..m |-> [v |-> results[k], name |-> IF k % 5 = 0 THEN 0 ELSE k, descr |-> IF k % 4 = 2 \/ k = 5 THEN 0 ELSE k, cls |-> (k * 5) % 17]])
        \/ Is("p") /\ round = "none" /\ ~passed /\ (\A k \in 1..m : slot[k] # 0)   \* every measurer took its 'before' step for this very pass
                   /\ E.g = data /\ data' = E.d /\ UNCHANGED mvars /\ passed' = TRUE
Consume == Step /\ l' = l + 1 /\ UNCHANGED tid
\* in the builder, rounds start and end silently -- around the passes: what the 'before' steps see is what the pass is given; the 'after' ones, what it returned
NextGiven == LET ps == {k \in l..Len(Ev) : Ev[k].e = "p"} IN IF ps = {} THEN 0 ELSE Ev[CHOOSE k \in ps : \A j \in ps : k <= j].g
Silent == /\ Tr.builder = 1
          /\ \/ EndRound /\ passed' = FALSE /\ UNCHANGED data
             \/ BeginRound("before") /\ ~passed /\ UNCHANGED passed /\ (\A k \in 1..m : slot[k] = 0) /\ data' = NextGiven
             \/ BeginRound("after") /\ passed /\ UNCHANGED <<passed, data>>
          /\ UNCHANGED <<tid, l>>
\* (the builder always runs the rounds in pairs)
Bug == Tr.builder = 0 /\ Misuse /\ UNCHANGED <<tid, l, data, passed>>
Outcome == /\ l = Len(Ev) + 1
           /\ IF panicked THEN Tr.out = "panic" ELSE round = "none" /\ ~passed /\ Tr.out = "ok"
                                                /\ (Tr.builder = 1 => Len(SelectSeq(Ev, LAMBDA e : e.e = "p")) = 2)
           /\ l' = l + 1 /\ UNCHANGED <<mvars, tid, data, passed>>
TNext == Consume \/ Silent \/ Bug \/ Outcome
TSpec == TInit /\ [][TNext]_<<mvars, tid, l, data, passed>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
