------------------------------ MODULE Measurers ------------------------------
(***************************************************************************)
(* Custom measurers around an event. Rounds of 'before' steps are taken in   *)
(* the reverse order in which measurers were added, rounds of 'after' steps  *)
(* in that order; steps are asynchronous but don't overlap. The value a      *)
(* 'before' step yields goes, once, to the next 'after' step of that very    *)
(* measurer; an 'after' step without it is a bug that must not go unnoticed. *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  m,        \* number of measurers, 1 being the first one added
  round,    \* "none", "before" or "after"
  who,      \* the measurer whose step is the current (or next) one
  busy,     \* the step is running
  slot,     \* per measurer: the value yielded by the latest 'before' step (0 = none)
  results,  \* of the current 'after' round
  panicked

mvars == <<m, round, who, busy, slot, results, panicked>>

StartWith(n) == m = n /\ round = "none" /\ who = 0 /\ busy = FALSE /\ slot = [k \in 1..n |-> 0] /\ results = <<>> /\ panicked = FALSE

BeginRound(kind) ==
  /\ round = "none" /\ ~panicked
  /\ round' = kind /\ who' = (IF kind = "before" THEN m ELSE 1) /\ results' = <<>>
  /\ UNCHANGED <<m, busy, slot, panicked>>

\* a 'before' step starts...
BeforeBegin(k) == round = "before" /\ ~busy /\ who = k /\ k >= 1 /\ busy' = TRUE /\ UNCHANGED <<m, round, who, slot, results, panicked>>
\* ... and ends, yielding v
BeforeEnd(k, v) == /\ round = "before" /\ busy /\ who = k
                   /\ busy' = FALSE /\ slot' = [slot EXCEPT ![k] = v] /\ who' = who - 1
                   /\ UNCHANGED <<m, round, results, panicked>>

\* an 'after' step starts with v...
AfterBegin(k, v) == /\ round = "after" /\ ~busy /\ who = k /\ k <= m
                    /\ slot[k] # 0 /\ v = slot[k]
                    /\ slot' = [slot EXCEPT ![k] = 0] /\ busy' = TRUE
                    /\ UNCHANGED <<m, round, who, results, panicked>>
\* ... and ends with the measurement r
AfterEnd(k, r) == /\ round = "after" /\ busy /\ who = k
                  /\ busy' = FALSE /\ who' = who + 1 /\ results' = Append(results, r)
                  /\ UNCHANGED <<m, round, slot, panicked>>

RoundOver == ~busy /\ IF round = "before" THEN who = 0 ELSE who = m + 1
EndRound == /\ round # "none" /\ RoundOver
            /\ round' = "none" /\ UNCHANGED <<m, who, busy, slot, results, panicked>>

\* nothing to give to the 'after' step
Misuse == /\ round = "after" /\ ~busy /\ who <= m /\ slot[who] = 0
          /\ panicked' = TRUE /\ UNCHANGED <<m, round, who, busy, slot, results>>

\* ------------------------------------------------------------- properties
OneAtATime == busy => round # "none" /\ who \in 1..m
NestsBefore == round = "before" => \A k \in 1..m : k > who => slot[k] # 0
ConsumedOnce == round = "after" /\ ~panicked => \A k \in 1..m : (k < who \/ (k = who /\ busy)) => slot[k] = 0
OneResultEach == round = "after" /\ RoundOver => Len(results) = m
=============================================================================
