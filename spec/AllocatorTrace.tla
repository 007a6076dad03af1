--------------------------- MODULE AllocatorTrace ---------------------------
(* Events: alloc (z: zeroed, n, ok, good), free (b, good), realloc (b, n, ok, good), save (ct, used), query (s, ok, ct, used, lo, hi, text: the same, as the textual form states them), churn (k, n)
   -- good: the memory handed out is aligned, zeroed (if so required), doesn't overlap other blocks and keeps its contents *)
EXTENDS Allocator, TLC, TraceBatch
CONSTANT Aspects    \* what is checked: "C12" (accounting) and/or "C13" (extremes)
VARIABLES tid, l
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
On(a) == a \in Aspects
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ StartWith(Tr.capacity)
Is(x) == l <= Len(Ev) /\ E.e = x
Good == On("C12") => E.good
Step == \/ Is("alloc") /\ (IF E.n = Huge THEN Refused /\ ~E.ok ELSE E.ok /\ Good /\ (IF E.z = 1 THEN ZAlloc(E.n) ELSE Alloc(E.n)))
        \/ Is("free") /\ Free(E.b) /\ Good
        \/ Is("realloc") /\ (IF E.n = Huge THEN Refused /\ ~E.ok /\ Good ELSE E.ok /\ Good /\ Realloc(E.b, E.n))
        \/ Is("save") /\ Save /\ (On("C12") => E.ct = ct /\ E.used = used)
        \/ Is("churn") /\ Churn(E.k, E.n)
        \/ Is("query") /\ UNCHANGED avars
                       /\ LET a == Answer(E.s) IN
                            /\ On("C13") => E.ok = a.ok
                            /\ a.ok /\ E.ok => /\ (On("C12") => E.ct = a.ct /\ E.used = a.used /\ E.text = [ct |-> E.ct, used |-> E.used, lo |-> E.lo, hi |-> E.hi])
                                               /\ (On("C13") => E.lo = a.lo /\ E.hi = a.hi)
TNext == (Step \/ (l = Len(Ev) + 1 /\ Tr.out = "ok" /\ UNCHANGED avars)) /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<avars, tid, l>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
