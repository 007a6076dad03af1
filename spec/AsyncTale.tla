------------------------------ MODULE AsyncTale ------------------------------
(* Checks that what the asynchronous builder tells is what happened *)
EXTENDS AsyncTrace, Tale

talevars == <<tvars, said>>

Name == "scripted"
ExcessOf(v) == IF v.space THEN Excess("SPACE", Name, cfg.sl, v.s) ELSE Excess("TIME", Name, cfg.tl, v.t)

\* the resets of an attempt aren't all named the same
Label(i) == CASE Prog[i] = "warmup" -> "Warming up" [] Prog[i] = "pass1" -> "Pass 1" [] Prog[i] = "pass2" -> "Pass 2"
              [] Prog[i] = "reset" -> IF i = 1 THEN "Resetting"
                                      ELSE IF \E j \in 1..i : Prog[j] = "pass1" THEN "In-between-passes Reset" ELSE "Resetting again"

TaleInit == TInit /\ said = <<>>
TaleConsume ==
  /\ Consume
  /\ Says(IF Ev[l].e = "begin" THEN (IF pc = 1 THEN <<"async:" \o Name>> ELSE <<>>)
          ELSE IF out' = "panic" \/ IsAssertion(Ev[l].s) THEN <<>> ELSE <<Label(pc)>>)
TaleJudge ==
  /\ Silent
  /\ LET v == verdicts'[Len(verdicts')] IN
     Says(Analysis(Name \o " regular", v.t, v.s)
          \o (IF v.space \/ v.time THEN <<ExcessOf(v)>> ELSE <<>>)
          \o (IF attempt' > attempt THEN <<"retrying">> ELSE <<>>))

Failures(n) == [i \in 1..n |-> ExcessOf(verdicts[i])]
Message ==
  IF out = "ok" THEN NoMessage
  ELSE IF Len(verdicts) = attempt THEN UserMessage
  ELSE LET v == verdicts[Len(verdicts)]
           told(k, n) == [k |-> k, n |-> n, last |-> ExcessOf(v), prev |-> Counted(Failures(attempt))]
       IN IF ~v.space THEN told("gave up", AttemptsAllowed - 1)
          ELSE IF attempt = 0 THEN told("aborted", 0) ELSE told("stopped", attempt)

TaleOutcome == Outcome /\ ToldAsDue(Traces[tid], Message) /\ UNCHANGED said

TaleNext == TaleConsume \/ TaleJudge \/ TaleOutcome
TSpecTale == TaleInit /\ [][TaleNext]_talevars
TrackTale == Track /\ (Sink # "none" => SoFarAs(Traces[tid][Sink]))
=============================================================================
