----------------------------- MODULE AsyncRunner -----------------------------
(***************************************************************************)
(* RegularAsyncAnalyzerBuilder::test_algorithm(): per attempt,              *)
(*    [reset] [warm-up [reset]] pass 1 [assertion 1] [reset] pass 2 [assertion 2]  *)
(* each stage receiving the data the previous one produced, and then the    *)
(* verdict on what the two passes consumed.                                 *)
(*   cfg -- n1, n2; reset, warmup, assert1, assert2 (1 = present);          *)
(*          retries, tl, sl, al, cl (-1 = not declared): limits for time,    *)
(*          space, auxiliary space and for a custom measurement of the time  *)
(***************************************************************************)
EXTENDS Classifier, Stage

VARIABLES
  cfg,
  pc,       \* index, in the program of an attempt, of the next (or running) stage
  busy,     \* the stage is running
  data,     \* the data baton (0 = nothing), unique for each stage that produces data
  attempt, kept, m1, m2, out, verdicts

vars == <<cfg, pc, busy, data, attempt, kept, m1, m2, out, verdicts>>

\* [t |-> time, s |-> peak over start, a |-> auxiliary: allocated and then released within the pass]
Null == [t |-> 0, s |-> 0, a |-> 0]

Opt(c, s) == IF c = 1 THEN <<s>> ELSE <<>>
Program(c) == Opt(c.reset, "reset")
              \o (IF c.warmup = 1 THEN <<"warmup">> \o Opt(c.reset, "reset") ELSE <<>>)
              \o <<"pass1">> \o Opt(c.assert1, "assert1")
              \o Opt(c.reset, "reset")
              \o <<"pass2">> \o Opt(c.assert2, "assert2")
Prog == Program(cfg)

IsAssertion(s) == s \in {"assert1", "assert2"}

StartWith(c) == /\ cfg = c
                /\ pc = 1 /\ busy = FALSE /\ data = 0 /\ attempt = 0 /\ kept = 0 /\ m1 = Null /\ m2 = Null
                /\ out = "running" /\ verdicts = <<>>

Begin(s, d) ==
  /\ out = "running" /\ ~busy /\ pc <= Len(Prog) /\ Prog[pc] = s
  /\ d = data
  /\ busy' = TRUE
  /\ UNCHANGED <<cfg, pc, data, attempt, kept, m1, m2, out, verdicts>>

End(s, ops, d) ==
  /\ out = "running" /\ busy /\ Prog[pc] = s
  /\ LET r == Run(ops, kept)
         m == [t |-> r.time, s |-> PeakOf(r, kept), a |-> IF PeakOf(r, kept) = Lost THEN Lost ELSE r.peak - Max(kept, r.kept)]
     IN IF r.panic
        THEN out' = "panic" /\ busy' = FALSE /\ UNCHANGED <<cfg, pc, data, attempt, kept, m1, m2, verdicts>>
        ELSE /\ pc' = pc + 1 /\ busy' = FALSE /\ kept' = r.kept
             /\ IF IsAssertion(s) THEN UNCHANGED data ELSE d > data /\ data' = d
             /\ m1' = IF s = "pass1" THEN m ELSE m1
             /\ m2' = IF s = "pass2" THEN m ELSE m2
             /\ UNCHANGED <<cfg, attempt, out, verdicts>>

Exceeds(class, limit) == limit >= 0 /\ class > limit

Judge ==
  /\ out = "running" /\ ~busy /\ pc = Len(Prog) + 1
  /\ \E tc \in Regular(m1.t, m2.t, cfg.n1, cfg.n2), sc \in RegularSpace(m1.s, m2.s, cfg.n1, cfg.n2), ac \in RegularSpace(m1.a, m2.a, cfg.n1, cfg.n2) :
       LET space == Exceeds(sc, cfg.sl) \/ Exceeds(ac, cfg.al)
           time  == Exceeds(tc, cfg.tl) \/ Exceeds(tc, cfg.cl)
       IN /\ verdicts' = Append(verdicts, [space |-> space, time |-> time, t |-> tc, s |-> sc])
          /\ IF space THEN out' = "panic" /\ UNCHANGED <<attempt, pc, data>>
             ELSE IF time
                  THEN IF attempt < cfg.retries
                       THEN /\ attempt' = attempt + 1 /\ pc' = 1 /\ UNCHANGED out
                            /\ data' = IF cfg.reset = 1 THEN data ELSE 0
                       ELSE out' = "panic" /\ UNCHANGED <<attempt, pc, data>>
                  ELSE out' = "ok" /\ UNCHANGED <<attempt, pc, data>>
  /\ UNCHANGED <<cfg, busy, kept, m1, m2>>

\* ------------------------------------------------------------- properties
Done == out # "running"
AttemptsAllowed == IF cfg.retries < 0 THEN 1 ELSE cfg.retries + 1
Judged == Len(verdicts)

\* C04
PassesIffLimitsMet ==
  Done /\ Judged = attempt + 1 =>
     (out = "panic" <=> ( \/ \E i \in 1..Judged : verdicts[i].space
                          \/ Judged = AttemptsAllowed /\ \A i \in 1..Judged : verdicts[i].time ))
OnlyTimeExcessesAreRetried ==
  \A i \in 1..Judged : i < Judged \/ ~Done => verdicts[i].time /\ ~verdicts[i].space
AttemptsBounded == Judged <= AttemptsAllowed
UndeclaredNotEnforced ==
  cfg.tl < 0 /\ cfg.sl < 0 /\ cfg.al < 0 /\ cfg.cl < 0 /\ Judged > 0 => out = "ok"
\* C03: the first stage of an attempt gets nothing unless it is a reset after the first attempt
NothingAtFirst == ~Done /\ pc = 1 /\ ~busy => (data # 0 <=> attempt > 0 /\ cfg.reset = 1)
DataFlows == ~Done /\ pc > 1 => data # 0
\* C18
UserPanicsFail == Done /\ Judged = attempt => out = "panic"
DoneIsFinal == [][out = "running"]_vars
Ends == <>Done
=============================================================================
