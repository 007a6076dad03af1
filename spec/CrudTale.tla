------------------------------ MODULE CrudTale ------------------------------
(* Checks that what the CRUD analyser tells is what happened *)
EXTENDS CrudTrace, Tale

VARIABLES heading,   \* headings of the current attempt's report given so far
          fails,     \* what failed on each of the previous attempts: operation & class
          final      \* the excess of the latest attempt
talevars == <<tvars, said, heading, fails, final>>

Name == "scripted"
OpName(o) == <<"Create", "Read", "Update", "Delete">>[o]
Letter(o) == <<"C", "R", "U", "D">>[o]
Label(o, p) == IF o = 4 THEN <<"1st", "2nd">>[p] ELSE <<"create", "read", "update">>[o]
Title(o) == OpName(o) \o (IF RelatesToSets(o) THEN " constant" ELSE " set")

\* when an analysis returns a report, it is the one that was told -- or would be, were there somewhere to tell it
Returned == cfg.api = "analyse" /\ Tr.out = "ok"

\* headings, each with the step of the program it comes before
Headings == << [at |-> 1, h |-> "start"], [at |-> 6, h |-> "first"], [at |-> 9, h |-> "second"],
               [at |-> 15, h |-> "1"], [at |-> 15, h |-> "2"], [at |-> 15, h |-> "3"], [at |-> 15, h |-> "delete"], [at |-> 18, h |-> "4"] >>
Due == out = "running" /\ heading < Len(Headings) /\ Skip(pc) >= Headings[heading + 1].at

OpOf(h) == CASE h = "1" -> 1 [] h = "2" -> 2 [] h = "3" -> 3 [] h = "4" -> 4
GiveHeading ==
  /\ Due /\ heading' = heading + 1 /\ UNCHANGED <<tvars, fails, final>>
  /\ LET h == Headings[heading + 1].h IN
     CASE h = "start"  -> Says(<<"crud:" \o Name>> \o (IF cfg.w > 0 THEN <<"warming up">> ELSE <<>>))
       [] h = "first"  -> Says(<<"First Pass">>)
       [] h = "second" -> Says(<<"Second Pass">>)
       [] h = "delete" -> Says(IF Requested(4) THEN <<"Delete Passes">> ELSE <<>>)
       [] OTHER -> LET o == OpOf(h) IN
                   IF ~Requested(o) \/ (Sink = "none" /\ ~Returned) THEN Says(<<>>)     \* it shows nowhere
                   ELSE \E tc \in {c \in TimeClasses(o) : c <= cfg.tl[o]}, sc \in {c \in SpaceClasses(o) : c <= cfg.sl[o]} : Says(Analysis(Title(o), tc, sc))

NoHeadings == UNCHANGED heading
TaleWarm == ~Due /\ TWarm /\ Says(<<Letter(Now.o)>>) /\ NoHeadings /\ UNCHANGED <<fails, final>>
TaleReset == /\ ~Due /\ TReset
             /\ Says(<<>>)
             /\ heading' = IF out = "retry" THEN 0 ELSE heading
             /\ UNCHANGED <<fails, final>>
TalePass == ~Due /\ TPass /\ Says(<<Label(Now.o, Now.p)>>) /\ NoHeadings /\ UNCHANGED <<fails, final>>
TalePanic == /\ ~Due /\ TPanic
             /\ Says(IF out = "running" /\ Now.k = "warm" THEN <<Letter(Now.o)>> ELSE <<>>)
             /\ final' = <<"user">> /\ NoHeadings /\ UNCHANGED fails
TaleJudge ==
  /\ ~Due /\ out = "running" /\ Now.k = "judge"
  /\ LET o == Now.o IN
     /\ Judge(o) /\ UNCHANGED <<tid, l, last, cur, created>>
     /\ LET v == verdicts'[Len(verdicts')] IN
        IF v.t THEN \E tc \in {c \in TimeClasses(o) : c > cfg.tl[o]} :
                      LET x == Excess("TIME", OpName(o), cfg.tl[o], tc) IN
                      /\ Says(<<x>> \o (IF out' = "retry" THEN <<"failed:" \o ToString(attempt + 1)>> ELSE <<>>))
                      /\ fails' = IF out' = "retry" THEN Append(fails, OpName(o) \o " " \o ToString(tc)) ELSE fails
                      /\ final' = <<x>>
        ELSE IF v.s THEN \E sc \in {c \in SpaceClasses(o) : c > cfg.sl[o]} :
                      LET x == Excess("SPACE", OpName(o), cfg.sl[o], sc) IN Says(<<x>>) /\ final' = <<x>> /\ UNCHANGED fails
        ELSE Says(<<>>) /\ UNCHANGED <<fails, final>>
  /\ NoHeadings
TaleFinish == ~Due /\ Finish /\ Says(<<>>) /\ NoHeadings /\ UNCHANGED <<tid, l, last, cur, created, fails, final>>

Message ==
  IF out = "ok" THEN NoMessage
  ELSE IF final = <<"user">> THEN UserMessage
  ELSE IF verdicts[Len(verdicts)].t THEN [k |-> "gave up", n |-> Attempts, last |-> final[1], prev |-> Counted(fails)]
  ELSE [k |-> "stopped", n |-> attempt + 1, last |-> final[1], prev |-> {}]

ReportReturned == Returned => Tr.report = said

TaleOutcome == Outcome /\ ToldAsDue(Tr, Message) /\ ReportReturned /\ UNCHANGED <<said, heading, fails, final>>

TaleInit == TInit /\ said = <<>> /\ heading = 0 /\ fails = <<>> /\ final = <<>>
TaleNext == GiveHeading \/ TaleWarm \/ TaleReset \/ TalePass \/ TalePanic \/ TaleJudge \/ TaleFinish \/ TaleOutcome
TSpecTale == TaleInit /\ [][TaleNext]_talevars
TrackTale == Track /\ (Sink # "none" => SoFarAs(Tr[Sink])) /\ (Returned => SoFarAs(Tr.report))
=============================================================================
