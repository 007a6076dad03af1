--------------------------- MODULE ClassifierTrace ---------------------------
(***************************************************************************)
(* Checks the classes that all entry points of the analysis functions give   *)
(* along series of measurements of increasing badness.                      *)
(*   pts[i] -- the measurements; r[i][k] -- what the k-th entry point said;  *)
(*   abs[k] -- the entry point got the measurements in the very unit of the *)
(*   series (on which the exponential law depends)                          *)
(*   lost[k] -- classes for lost memory statistics                          *)
(***************************************************************************)
EXTENDS Classifier, TLC, TraceBatch

VARIABLES tid, l
Tr == Traces[tid]
N == Len(Tr.pts)

Allowed(p) == IF Tr.kind = "regular" THEN Regular(p[1], p[2], Tr.n1, Tr.n2) ELSE SetResizing(p[1], p[2], Tr.n1)
Beyond == 14..16
Agrees(i) ==
  LET p == Tr.pts[i]  A == Allowed(p)
      B == IF Tr.kind = "regular" /\ A \cap Beyond # {} /\ p[1] # 0 THEN A \cup Beyond ELSE A
  IN \A k \in 1..Len(Tr.abs) : Tr.r[i][k] \in (IF Tr.abs[k] = 1 THEN A ELSE B)
NeverBetter(i) == i > 1 => \A k \in 1..Len(Tr.abs) : Tr.r[i][k] >= Tr.r[i-1][k]

TInit == tid \in 1..Len(Traces) /\ l = 1
TNext == \/ l <= N /\ Agrees(l) /\ NeverBetter(l) /\ l' = l + 1 /\ UNCHANGED tid
         \* nothing is known about lost measurements
         \/ l = N + 1 /\ Len(Tr.lost) > 0 /\ (\A k \in 1..Len(Tr.lost) : Tr.lost[k] >= 6) /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].pts) + 2)
=============================================================================
