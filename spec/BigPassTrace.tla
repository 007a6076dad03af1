---------------------------- MODULE BigPassTrace ----------------------------
(***************************************************************************)
(* Passes over too many elements, or with too many threads, to have each     *)
(* call logged: the rules of CrudTrace's WellRun (each element exactly once,  *)
(* threads on contiguous and balanced ranges, one pass after the other), on   *)
(* the runs of consecutive elements each thread went through, in the order    *)
(* they started:                                                            *)
(*   o -- operation; p -- pass, by its first element; a, b -- first and last   *)
(*   elements; th -- thread                                                 *)
(***************************************************************************)
EXTENDS TraceBatch, FiniteSets, FiniteSetsExt

VARIABLES tid, l, at, made
Tr == Traces[tid]
Ev == Tr.ev
Requested(o) == Tr.cfg.n[o] > 0 /\ Tr.cfg.th[o] > 0
\* the order of the passes
Program == << <<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<4, 1>> >>
Least(a, b) == IF a < b THEN a ELSE b
Greatest(a, b) == IF a > b THEN a ELSE b
First(e) == Least(e.a, e.b)
Final(e) == Greatest(e.a, e.b)
Length(e) == Final(e) - First(e) + 1

RECURSIVE RunLength(_, _, _)
RunLength(o, p, i) == IF i > Len(Ev) THEN 0 ELSE IF Ev[i].o # o \/ Ev[i].p # p THEN 0 ELSE 1 + RunLength(o, p, i + 1)

\* W: the runs of a pass on lo..hi-1
Covers(W, lo, hi) ==
  LET firsts == {First(Ev[i]) : i \in W}  after == {Final(Ev[i]) + 1 : i \in W} IN
  /\ Cardinality(firsts) = Cardinality(W)
  /\ firsts = ((after \cup {lo}) \ {hi})        \* every run but the first one follows another one
  /\ lo \in firsts /\ hi \in after
  /\ FoldSet(LAMBDA i, acc : acc + Length(Ev[i]), 0, W) = hi - lo
OneRunPerThread(W) == Cardinality({Ev[i].th : i \in W}) = Cardinality(W)
Balanced(W, th) == LET shares == {Length(Ev[i]) : i \in W} \cup (IF Cardinality(W) < th THEN {0} ELSE {})
                   IN Cardinality(W) <= th /\ \A a, b \in shares : a - b <= 1
\* a single thread deletes in the opposite order of the creation
Backwards(a, b, W) == LET n == Tr.cfg.n  th == Tr.cfg.th IN
  th[1] = 1 /\ th[4] = 1 /\ n[1] = n[4] => \A i \in a..b, j \in W : Ev[j].a = Ev[i].b /\ Ev[j].b = Ev[i].a

\* l: the pass of the program; at: the next run; made: where the runs of the creation of each pass are
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ at = 1 /\ made = <<<<1, 0>>, <<1, 0>>>>
Pass == /\ l <= Len(Program) /\ Tr.out = "ok" /\ Tr.excess = 0
        /\ LET o == Program[l][1]  p == Program[l][2]  n == Tr.cfg.n[o] IN
           IF ~Requested(o) THEN UNCHANGED <<at, made>>
           ELSE LET k == RunLength(o, p, at)  W == at .. at + k - 1 IN
                /\ Covers(W, (p - 1) * n, p * n) /\ OneRunPerThread(W) /\ Balanced(W, Tr.cfg.th[o])
                /\ (o = 4 => Backwards(made[p][1], made[p][2], W))
                /\ at' = at + k
                /\ made' = IF o = 1 THEN [made EXCEPT ![p] = <<at, at + k - 1>>] ELSE made
        /\ l' = l + 1 /\ UNCHANGED tid
End == l = Len(Program) + 1 /\ at = Len(Ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<tid, at, made>>
TNext == Pass \/ End
TSpec == TInit /\ [][TNext]_<<tid, l, at, made>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Program) + 2)
=============================================================================
