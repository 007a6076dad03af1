------------------------------ MODULE AsyncTrace ------------------------------
(* Checks that recorded executions of the asynchronous builder are behaviours of AsyncRunner *)
EXTENDS AsyncRunner, TLC, TraceBatch

VARIABLES tid, l
tvars == <<vars, tid, l>>

Ev == Traces[tid].ev

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ StartWith(Traces[tid].cfg)

Consume == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
           /\ \/ Ev[l].e = "begin" /\ Begin(Ev[l].s, Ev[l].d)
              \/ Ev[l].e = "end" /\ End(Ev[l].s, Ev[l].ops, Ev[l].d)
Silent  == Judge /\ UNCHANGED <<tid, l>>
Outcome == l = Len(Ev) + 1 /\ Done /\ Traces[tid].out = out /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
TNext == Consume \/ Silent \/ Outcome
TSpec == TInit /\ [][TNext]_tvars

Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
