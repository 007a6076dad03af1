------------------------------- MODULE Stage --------------------------------
(***************************************************************************)
(* What a user closure does when called, as a script of operations:         *)
(*    time n   -- spends n units of time                                    *)
(*    keep n   -- allocates n bytes, to be kept                             *)
(*    tmp n    -- allocates n bytes and frees them right after              *)
(*    free     -- frees everything kept so far                              *)
(*    wait     -- suspends (asynchronous closures only)                     *)
(*    save n   -- takes n save points of the allocator statistics           *)
(*    panic    -- panics                                                    *)
(* Run(ops, kept) is its effect when `kept` bytes are already in use.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max(a,b) == IF a > b THEN a ELSE b

\* how many save points may be taken after the pass' own one without losing its memory statistics
SavePoints == 1024

RECURSIVE RunFrom(_,_,_)
RunFrom(ops, i, st) ==
  IF i > Len(ops) \/ st.panic THEN st
  ELSE LET op == ops[i]
           nx == CASE op.o = "time"  -> [st EXCEPT !.time = @ + op.n]
                   [] op.o = "keep"  -> [st EXCEPT !.kept = @ + op.n, !.peak = Max(@, st.kept + op.n)]
                   [] op.o = "tmp"   -> [st EXCEPT !.peak = Max(@, st.kept + op.n)]
                   [] op.o = "free"  -> [st EXCEPT !.kept = 0]
                   [] op.o = "wait"  -> st
                   [] op.o = "save"  -> [st EXCEPT !.saves = @ + op.n]
                   [] op.o = "panic" -> [st EXCEPT !.panic = TRUE]
       IN RunFrom(ops, i+1, nx)
Run(ops, kept) == RunFrom(ops, 1, [time |-> 0, kept |-> kept, peak |-> kept, saves |-> 0, panic |-> FALSE])
\* the memory peak over what was in use at the start -- or Lost
Lost == -1
PeakOf(r, kept) == IF r.saves > SavePoints THEN Lost ELSE r.peak - kept
\* replaces the above in builds that don't meter allocations: no memory is seen, though its statistics may still be lost
UnmeteredPeakOf(r, kept) == IF r.saves > SavePoints THEN Lost ELSE 0
=============================================================================
