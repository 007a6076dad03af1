--------------------------- MODULE StandardRunner ---------------------------
(***************************************************************************)
(* test_algorithm(): runs reset, pass 1 and pass 2, judges what the passes   *)
(* consumed against the limits, retrying if it took too long.               *)
(*   cfg -- retries, n1, n2 (set sizes), tl, sl (time & space limits)       *)
(***************************************************************************)
EXTENDS Classifier, Stage

VARIABLES
  cfg,      \* the parameters of the test
  phase,    \* "reset" -> "pass1" -> "pass2" -> "judge" -> ("reset" | "done")
  attempt,  \* number of failed attempts so far
  kept,     \* memory kept by the closures run so far
  m1, m2,   \* measurements: [t |-> time spent in the pass, s |-> peak memory over what was in use when it started]
  out,      \* "running", "ok" or "panic"
  verdicts  \* for each judged attempt, its [t |-> time class, s |-> space class]

vars == <<cfg, phase, attempt, kept, m1, m2, out, verdicts>>

Null == [t |-> 0, s |-> 0]

StartWith(c) == /\ cfg = c
                /\ phase = "reset" /\ attempt = 0 /\ kept = 0 /\ m1 = Null /\ m2 = Null
                /\ out = "running" /\ verdicts = <<>>

UserPanics == phase' = "done" /\ out' = "panic" /\ UNCHANGED <<cfg, attempt, kept, m1, m2, verdicts>>

RunReset(ops) ==
  /\ phase = "reset"
  /\ LET r == Run(ops, kept) IN
     IF r.panic THEN UserPanics
     ELSE phase' = "pass1" /\ kept' = r.kept /\ UNCHANGED <<cfg, attempt, m1, m2, out, verdicts>>

RunPass1(ops) ==
  /\ phase = "pass1"
  /\ LET r == Run(ops, kept) IN
     IF r.panic THEN UserPanics
     ELSE /\ phase' = "pass2" /\ kept' = r.kept
          /\ m1' = [t |-> r.time, s |-> PeakOf(r, kept)]
          /\ UNCHANGED <<cfg, attempt, m2, out, verdicts>>

RunPass2(ops) ==
  /\ phase = "pass2"
  /\ LET r == Run(ops, kept) IN
     IF r.panic THEN UserPanics
     ELSE /\ phase' = "judge" /\ kept' = r.kept
          /\ m2' = [t |-> r.time, s |-> PeakOf(r, kept)]
          /\ UNCHANGED <<cfg, attempt, m1, out, verdicts>>

RunStage(s, ops) == CASE s = "reset" -> RunReset(ops)
                      [] s = "pass1" -> RunPass1(ops)
                      [] s = "pass2" -> RunPass2(ops)
                      [] OTHER -> FALSE

\* space first: its excesses are never retried
Judge ==
  /\ phase = "judge"
  /\ \E tc \in Regular(m1.t, m2.t, cfg.n1, cfg.n2), sc \in RegularSpace(m1.s, m2.s, cfg.n1, cfg.n2) :
       /\ verdicts' = Append(verdicts, [t |-> tc, s |-> sc])
       /\ IF sc > cfg.sl THEN phase' = "done" /\ out' = "panic" /\ UNCHANGED attempt
          ELSE IF tc > cfg.tl
               THEN IF attempt < cfg.retries THEN phase' = "reset" /\ attempt' = attempt + 1 /\ UNCHANGED out
                                             ELSE phase' = "done" /\ out' = "panic" /\ UNCHANGED attempt
               ELSE phase' = "done" /\ out' = "ok" /\ UNCHANGED attempt
  /\ UNCHANGED <<cfg, kept, m1, m2>>

\* ------------------------------------------------------------- properties
TimeExcess(v) == v.t > cfg.tl
SpaceExcess(v) == v.s > cfg.sl
Meets(v) == ~TimeExcess(v) /\ ~SpaceExcess(v)

\* C01: panics iff a space excess occurs or time is exceeded in all the allowed attempts
PassesIffLimitsMet ==
  phase = "done" =>
    /\ Len(verdicts) > 0 /\ out = "ok" => Meets(verdicts[Len(verdicts)])
    /\ Len(verdicts) = attempt + 1 =>
         (out = "panic" <=> ( \/ \E i \in 1..Len(verdicts) : SpaceExcess(verdicts[i])
                              \/ Len(verdicts) = cfg.retries + 1 /\ \A i \in 1..Len(verdicts) : TimeExcess(verdicts[i]) ))
OnlyTimeExcessesAreRetried ==
  \A i \in 1..Len(verdicts) : i < Len(verdicts) \/ phase \in {"reset", "pass1", "pass2"} =>
      TimeExcess(verdicts[i]) /\ ~SpaceExcess(verdicts[i])
AttemptsBounded == attempt <= cfg.retries /\ Len(verdicts) <= cfg.retries + 1
\* C02: an attempt's verdict comes from its two passes only
VerdictsFromPasses == phase = "done" /\ Len(verdicts) = attempt + 1 =>
      LET v == verdicts[Len(verdicts)]
      IN v.t \in Regular(m1.t, m2.t, cfg.n1, cfg.n2) /\ v.s \in RegularSpace(m1.s, m2.s, cfg.n1, cfg.n2)
\* C18: a verdict-less ending is a panic, and nothing runs afterwards
UserPanicsFail == (phase = "done" /\ Len(verdicts) = attempt => out = "panic") /\ (out # "running" <=> phase = "done")
DoneIsFinal == [][phase # "done"]_vars
Ends == <>(phase = "done")
=============================================================================
