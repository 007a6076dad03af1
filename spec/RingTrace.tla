------------------------------ MODULE RingTrace ------------------------------
(* Events: call (t, o: enq | deq | peek | cons, c: consumer, v: element), ret (t, o, r: ok | none | err | unit, vs: elements) *)
EXTENDS RingHistory, TLC, TraceBatch
CONSTANT Aspect   \* "all", "delivery" (C15) or "overflow" (C16)
VARIABLES tid, l, S
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Start(Tr.n, Tr.threads)}
Next(e) == IF e.e = "call" THEN Call(S, e.t, e.o, e.c, e.v)
           ELSE CASE Aspect = "all" -> Ret(S, e.t, e.r, e.vs)
                  [] Aspect = "delivery" -> RetDelivery(S, e.t, e.r, e.vs)
                  [] Aspect = "overflow" -> RetOverflow(S, e.t, e.r, e.vs)
Consume == l <= Len(Ev) /\ S' = Next(E) /\ S' # {} /\ l' = l + 1 /\ UNCHANGED tid
TNext == Consume \/ (l = Len(Ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<S, tid>>)
TSpec == TInit /\ [][TNext]_<<tid, l, S>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
