----------------------------- MODULE MemoryModel -----------------------------
(***************************************************************************)
(* Happens-before, out of the orderings of atomic operations (as of C++20),   *)
(* and the life of elements: written, visible, released.                     *)
(* State: clk (what each thread knows of the others), facq / frel (what       *)
(* relaxed loads saw, for a later acquire fence / what the latest release     *)
(* fence covers), loc (per location: what one acquires by reading it),        *)
(* w (per element: the writing event), gone (elements already released)       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in DOMAIN a |-> Max2(a[t], b[t])]
Zero(threads) == [t \in 0..threads |-> 0]
MemStart(threads) == [clk |-> [t \in 0..threads |-> [Zero(threads) EXCEPT ![t] = 1]],
                      facq |-> [t \in 0..threads |-> Zero(threads)], frel |-> [t \in 0..threads |-> Zero(threads)],
                      loc |-> [a \in {} |-> Zero(threads)], w |-> [v \in {} |-> <<0, 0>>], gone |-> {}]
At(m, a) == IF a \in DOMAIN m.loc THEN m.loc[a] ELSE [t \in DOMAIN m.clk |-> 0]
SetLoc(m, a, c) == [m EXCEPT !.loc = [b \in DOMAIN @ \cup {a} |-> IF b = a THEN c ELSE @[b]]]

\* reading a location: acquiring now, or at the next acquire fence
Read(m, t, a, acq) == IF acq THEN [m EXCEPT !.clk[t] = Join(@, At(m, a))] ELSE [m EXCEPT !.facq[t] = Join(@, At(m, a))]
Released(m, t, rel) == IF rel THEN m.clk[t] ELSE m.frel[t]
Load(m, t, a, acq) == Read(m, t, a, acq)
\* a store breaks release sequences; a read-modify-write continues them
Store(m, t, a, rel) == SetLoc(m, a, Released(m, t, rel))
Rmw(m, t, a, acq, rel) == LET r == Read(m, t, a, acq) IN SetLoc(r, a, Join(At(m, a), Released(r, t, rel)))
Fence(m, t, acq, rel) == LET r == IF acq THEN [m EXCEPT !.clk[t] = Join(@, m.facq[t])] ELSE m
                         IN IF rel THEN [r EXCEPT !.frel[t] = r.clk[t]] ELSE r
\* threads start knowing all of the main one, which gets to know all of them at the end
Fork(m) == [m EXCEPT !.clk = [t \in DOMAIN m.clk |-> Join(m.clk[t], [m.clk[0] EXCEPT ![t] = m.clk[t][t]])]]
AllOf(m) == [u \in DOMAIN m.clk |-> m.clk[u][u]]
JoinAll(m) == [m EXCEPT !.clk[0] = AllOf(m)]

Written(m, t, v) == [m EXCEPT !.clk[t][t] = @ + 1, !.w = [x \in DOMAIN @ \cup {v} |-> IF x = v THEN <<t, m.clk[t][t] + 1>> ELSE @[x]]]
\* is the writing of v before anything t does now?
Sees(m, t, v) == v \in DOMAIN m.w /\ m.clk[t][m.w[v][1]] >= m.w[v][2]
\* may t read / release v?
MayRead(m, t, v) == Sees(m, t, v) /\ v \notin m.gone
Dropped(m, v) == [m EXCEPT !.gone = @ \cup {v}]
=============================================================================
