---------------------------- MODULE StandardTrace ----------------------------
(* Checks that recorded executions of test_algorithm() are behaviours of StandardRunner *)
EXTENDS StandardRunner, TLC, TraceBatch

VARIABLES tid, l
tvars == <<vars, tid, l>>

Ev == Traces[tid].ev

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ StartWith(Traces[tid].cfg)

Consume == l <= Len(Ev) /\ RunStage(Ev[l].s, Ev[l].ops) /\ l' = l + 1 /\ UNCHANGED tid
Silent  == Judge /\ UNCHANGED <<tid, l>>
Outcome == l = Len(Ev) + 1 /\ phase = "done" /\ Traces[tid].out = out /\ l' = l + 1 /\ UNCHANGED <<vars, tid>>
TNext == Consume \/ Silent \/ Outcome
TSpec == TInit /\ [][TNext]_tvars

Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
