--------------------------- MODULE AllocRaceTrace ---------------------------
(* Events: call (t, o: alloc | zalloc | free | realloc | save | query, b: block, n: bytes, s: save point), ret (t, ok, used, lo, hi, ct),
   panic (t), use (t, u): the memory in use became u -- just for traces with `levels` *)
EXTENDS AllocHistory, TLC, TraceBatch
VARIABLES tid, l, S
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Start(Tr.n, Tr.threads)}
Possible == IF Tr.levels THEN S ELSE Close(S)
Next(e) == CASE e.e = "call" -> Call(Possible, e.t, e.o, e.b, e.n, e.s)
             [] e.e = "ret" -> Ret(Possible, e.t, e)
             [] e.e = "panic" -> {}
             [] e.e = "use" -> IF Tr.levels THEN Use(S, e.t, e.u) ELSE S
Consume == l <= Len(Ev) /\ S' = Next(E) /\ S' # {} /\ l' = l + 1 /\ UNCHANGED tid
TNext == Consume \/ (l = Len(Ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<S, tid>>)
TSpec == TInit /\ [][TNext]_<<tid, l, S>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
