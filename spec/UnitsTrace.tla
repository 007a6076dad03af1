----------------------------- MODULE UnitsTrace -----------------------------
(* Events: new (kind, unit, v); show (h: which one, s: what was shown) *)
EXTENDS Units, TLC, TraceBatch
VARIABLES tid, l
Ev == Traces[tid].ev
E == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ShownStart
TNext == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
         /\ \/ E.e = "new" /\ Create(E.kind, E.unit, E.v)
            \/ E.e = "show" /\ Show(E.h, E.s)
TSpec == TInit /\ [][TNext]_<<presented, tid, l>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 1)
=============================================================================
