----------------------------- MODULE MCMeasurers -----------------------------
EXTENDS Measurers, TLC, Json
CONSTANTS MaxM, MaxRounds
VARIABLES rounds, next     \* rounds so far; next fresh value
vars == <<mvars, rounds, next>>

MCInit == (\E n \in 0..MaxM : StartWith(n)) /\ rounds = <<>> /\ next = 1
MCNext ==
  \/ \E kind \in {"before", "after"} : Len(rounds) < MaxRounds /\ BeginRound(kind) /\ rounds' = Append(rounds, kind) /\ UNCHANGED next
  \/ BeforeBegin(who) /\ UNCHANGED <<rounds, next>>
  \/ BeforeEnd(who, next) /\ next' = next + 1 /\ UNCHANGED rounds
  \/ (\E v \in 1..next : AfterBegin(who, v)) /\ UNCHANGED <<rounds, next>>
  \/ AfterEnd(who, next) /\ next' = next + 1 /\ UNCHANGED rounds
  \/ EndRound /\ UNCHANGED <<rounds, next>>
  \/ Misuse /\ UNCHANGED <<rounds, next>>
MCSpec == MCInit /\ [][MCNext]_vars
Over == panicked \/ (round = "none" /\ Len(rounds) = MaxRounds)
\* every sequence of rounds, with steps suspending in several patterns
Emit == Over => \A w \in 0..3 : \A b \in {0, 1} :
     (b = 1 => m > 0 /\ rounds = [i \in 1..MaxRounds |-> "before"]) =>     \* ... and the builder, whose rounds aren't up to us
        PrintT("SCN " \o ToJson([kind |-> "measurers", m |-> m, rounds |-> rounds, waits |-> w, builder |-> b]))
=============================================================================
