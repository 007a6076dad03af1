------------------------------ MODULE Allocator ------------------------------
(***************************************************************************)
(* A metered allocator: what it accounts for, and what its save points tell. *)
(*   - memory operations (allocations, zeroed allocations, reallocations and *)
(*     deallocations) are counted, per kind, along with their bytes; the ones *)
(*     the system refuses change nothing;                                    *)
(*   - a save point remembers the counters and, from then on, the lowest and *)
(*     the highest memory usage -- up to `Capacity` later save points, after *)
(*     which its extremes are lost.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  capacity,
  size,     \* per block ever allocated: its size -- or Freed
  used,     \* memory in use
  ct,       \* counters since the beginning: see Zero
  saves     \* save points: [ct, used (when taken), lo, hi (since then), later (save points taken after it)]

avars == <<capacity, size, used, ct, saves>>

Freed == -1
Huge == -1      \* the size of a request that the system refuses
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* allocations, deallocations, zeroed allocations, reallocations; bytes: allocated, deallocated, zeroed, reallocated originals, reallocated news
Zero == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
Plus(a, b) == [k \in 1..9 |-> a[k] + b[k]]
Minus(a, b) == [k \in 1..9 |-> a[k] - b[k]]

StartWith(c) == capacity = c /\ size = <<>> /\ used = 0 /\ ct = Zero /\ saves = <<>>

Live == {b \in 1..Len(size) : size[b] # Freed}

\* memory usage becomes u
Use(u) == /\ used' = u
          /\ saves' = [s \in 1..Len(saves) |-> [saves[s] EXCEPT !.lo = Min2(@, u), !.hi = Max2(@, u)]]

Alloc(n) == /\ n # Huge
            /\ size' = Append(size, n) /\ ct' = Plus(ct, <<1, 0, 0, 0, n, 0, 0, 0, 0>>) /\ Use(used + n)
            /\ UNCHANGED capacity
ZAlloc(n) == /\ n # Huge
             /\ size' = Append(size, n) /\ ct' = Plus(ct, <<0, 0, 1, 0, 0, 0, n, 0, 0>>) /\ Use(used + n)
             /\ UNCHANGED capacity
Free(b) == /\ b \in Live
           /\ size' = [size EXCEPT ![b] = Freed] /\ ct' = Plus(ct, <<0, 1, 0, 0, 0, size[b], 0, 0, 0>>) /\ Use(used - size[b])
           /\ UNCHANGED capacity
Realloc(b, n) == /\ b \in Live /\ n # Huge
                 /\ size' = [size EXCEPT ![b] = n] /\ ct' = Plus(ct, <<0, 0, 0, 1, 0, 0, 0, size[b], n>>) /\ Use(used + n - size[b])
                 /\ UNCHANGED capacity
\* what is refused leaves no trace
Refused == UNCHANGED avars

Aged == [s \in 1..Len(saves) |-> [saves[s] EXCEPT !.later = @ + 1]]
Save == /\ saves' = Append(Aged, [ct |-> ct, used |-> used, lo |-> used, hi |-> used, later |-> 0])
        /\ UNCHANGED <<capacity, size, used, ct>>

\* k times: n bytes allocated, then freed, then a save point (not kept)
Churn(k, n) == /\ ct' = Plus(ct, <<k, k, 0, 0, k * n, k * n, 0, 0, 0>>)
               /\ saves' = [s \in 1..Len(saves) |-> [saves[s] EXCEPT !.hi = Max2(@, used + n), !.later = @ + k]]
               /\ UNCHANGED <<capacity, size, used>>

Lost(s) == saves[s].later > capacity
\* the answer to a query on the save point s
Answer(s) == IF Lost(s) THEN [ok |-> FALSE]
             ELSE [ok |-> TRUE, ct |-> Minus(ct, saves[s].ct), used |-> used, lo |-> saves[s].lo, hi |-> saves[s].hi]

\* ------------------------------------------------------------- properties
SumOf(f, S) == LET RECURSIVE Sum(_)
                   Sum(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + Sum(T \ {x})
               IN Sum(S)
\* memory in use is what was allocated and not yet released
UsedIsLive == used = SumOf(size, Live)
UsedIsFlow == used = ct[5] - ct[6] + ct[7] - ct[8] + ct[9]
CountsOfBlocks == Len(size) <= ct[1] + ct[3]
NeverNegative == used >= 0 /\ \A k \in 1..9 : ct[k] >= 0
ExtremesEnclose == \A s \in 1..Len(saves) : LET x == saves[s] IN x.lo <= Min2(x.used, used) /\ x.hi >= Max2(x.used, used)
\* an older save point has seen all a newer one has
OlderIsWider == \A s \in 1..Len(saves) : \A t \in s..Len(saves) : saves[s].lo <= saves[t].lo /\ saves[s].hi >= saves[t].hi /\ saves[s].later >= saves[t].later
=============================================================================
