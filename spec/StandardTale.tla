---------------------------- MODULE StandardTale ----------------------------
(* Checks that what test_algorithm() tells is what happened *)
EXTENDS StandardTrace, Tale

talevars == <<tvars, said>>

Name == "scripted"
ExcessOf(v) == IF SpaceExcess(v) THEN Excess("SPACE", Name, cfg.sl, v.s) ELSE Excess("TIME", Name, cfg.tl, v.t)

TaleInit == TInit /\ said = <<>>
\* the name of each stage comes along with what it consumed
TaleConsume ==
  /\ Consume
  /\ LET s == Ev[l].s  ended == phase' # "done" IN
     Says((IF s = "reset" THEN <<"sync:" \o Name>> ELSE <<>>)
          \o (IF ~ended THEN <<>> ELSE CASE s = "reset" -> <<"Resetting">> [] s = "pass1" -> <<"Pass 1">> [] s = "pass2" -> <<"Pass 2">>))
TaleJudge ==
  /\ Silent
  /\ LET v == verdicts'[Len(verdicts')] IN
     Says(Analysis(Name \o " regular", v.t, v.s) \o (IF Meets(v) THEN <<>> ELSE <<ExcessOf(v)>>))

Failures(n) == [i \in 1..n |-> ExcessOf(verdicts[i])]
Message ==
  IF out = "ok" THEN NoMessage
  ELSE IF Len(verdicts) = attempt THEN UserMessage
  ELSE LET v == verdicts[Len(verdicts)]
           told(k, n) == [k |-> k, n |-> n, last |-> ExcessOf(v), prev |-> Counted(Failures(attempt))]
       IN IF ~SpaceExcess(v) THEN told("gave up", cfg.retries)
          ELSE IF attempt = 0 THEN told("aborted", 0) ELSE told("stopped", attempt)

TaleOutcome == Outcome /\ ToldAsDue(Traces[tid], Message) /\ UNCHANGED said

TaleNext == TaleConsume \/ TaleJudge \/ TaleOutcome
TSpecTale == TaleInit /\ [][TaleNext]_talevars
TrackTale == Track /\ (Sink # "none" => SoFarAs(Traces[tid][Sink]))
=============================================================================
