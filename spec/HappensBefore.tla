---------------------------- MODULE HappensBefore ----------------------------
(* Recorded executions of a ring buffer, with all atomic operations and the lives of the elements.                            *)
(* Events: atomic (t, a: location, k: load | store | rmw | fence, acq, rel), write / read / drop (t, id), fork, join, call, ret *)
EXTENDS MemoryModel, Sequences, TLC, TraceBatch
VARIABLES tid, l, m
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ m = MemStart(Tr.threads)
Atomic(e) == CASE e.k = "load" -> Load(m, e.t, e.a, e.acq)
               [] e.k = "store" -> Store(m, e.t, e.a, e.rel)
               [] e.k = "rmw" -> Rmw(m, e.t, e.a, e.acq, e.rel)
               [] e.k = "fence" -> Fence(m, e.t, e.acq, e.rel)
Consume ==
  /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.e = "atomic" -> m' = Atomic(E)
       [] E.e = "write"  -> E.id \notin DOMAIN m.w /\ m' = Written(m, E.t, E.id)
       [] E.e = "read"   -> MayRead(m, E.t, E.id) /\ m' = m
       [] E.e = "drop"   -> MayRead(m, E.t, E.id) /\ m' = Dropped(m, E.id)
       [] E.e = "fork"   -> m' = Fork(m)
       [] E.e = "join"   -> m' = JoinAll(m)
       [] OTHER -> m' = m
\* at the end, just the elements in the ring weren't released
TotalWritten == Cardinality(DOMAIN m.w)
End == l = Len(Ev) + 1 /\ Cardinality(m.gone) = (IF TotalWritten > Tr.n THEN TotalWritten - Tr.n ELSE 0) /\ l' = l + 1 /\ UNCHANGED <<tid, m>>
TSpec == TInit /\ [][Consume \/ End]_<<tid, l, m>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
