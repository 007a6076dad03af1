----------------------------- MODULE CrudRunner -----------------------------
(***************************************************************************)
(* test_crud_algorithms() & analyse_crud_algorithms(): the sequence of       *)
(* passes, verdicts, resets and retries. One action per pass, per verdict    *)
(* and per reset.                                                           *)
(*                                                                         *)
(* Operations: 1 Create, 2 Read, 3 Update, 4 Delete.                        *)
(*   cfg.n[o], cfg.th[o] -- iterations per pass and threads                 *)
(*   cfg.w               -- warm-up percentage                              *)
(*   cfg.max             -- max_retry_attempts                              *)
(*   cfg.tl[o], cfg.sl[o]-- time & space limits                             *)
(*                                                                         *)
(* Time is in units for which the exponential law of the classifier applies  *)
(* (seconds); memory is in units of 4 KiB.                                  *)
(***************************************************************************)
EXTENDS Classifier, Stage

VARIABLES
  cfg,
  pc,        \* next step of the attempt's program
  attempt,   \* failed attempts so far
  size,      \* per operation, the number of elements per pass of this attempt (0 = not settled yet)
  warm,      \* per operation, the number of elements of this attempt's warm-up
  meas,      \* per operation and pass, what it consumed
  out,       \* "running", "retry" (a reset is due before the next attempt), "ok", "panic"
  verdicts   \* sequence of [o, t, s]: the verdicts of the current attempt

vars == <<cfg, pc, attempt, size, warm, meas, out, verdicts>>

Ops == 1..4
Requested(o) == cfg.n[o] > 0 /\ cfg.th[o] > 0

\* ------------------------------------------------------------- the program of an attempt
Step(k, o, p) == [k |-> k, o |-> o, p |-> p]
Full == << Step("warm", 1, 0), Step("warm", 2, 0), Step("warm", 3, 0), Step("warm", 4, 0), Step("reset", 0, 0),
           Step("pass", 1, 1), Step("pass", 2, 1), Step("pass", 3, 1),
           Step("pass", 1, 2), Step("judge", 1, 0), Step("pass", 2, 2), Step("judge", 2, 0), Step("pass", 3, 2), Step("judge", 3, 0),
           Step("pass", 4, 2), Step("pass", 4, 1), Step("judge", 4, 0), Step("end", 0, 0) >>
Applies(s) == CASE s.k = "warm"  -> cfg.w > 0 /\ Requested(s.o)
                [] s.k = "reset" -> cfg.w > 0
                [] s.k = "end"   -> TRUE
                [] OTHER         -> Requested(s.o)
RECURSIVE Skip(_)
Skip(i) == IF Applies(Full[i]) THEN i ELSE Skip(i + 1)     \* "end" always applies
Now == Full[Skip(pc)]

\* ------------------------------------------------------------- sizes
WarmSize(n) == (n \div 100) * cfg.w + ((n % 100) * cfg.w) \div 100
MinSize(o) == Max(1, cfg.n[o] \div 10)
MaxSize(o) == cfg.n[o] + cfg.n[o] \div 2
SizeAllowed(o, n) == IF attempt = 0 THEN n = cfg.n[o] ELSE n >= MinSize(o) /\ n <= MaxSize(o)
\* is `n` elements per pass possible for `o`, given what is already settled?
SizeFits(o, n) == /\ size[o] # 0 => n = size[o]
                  /\ SizeAllowed(o, n)
                  /\ warm[o] >= 0 => WarmSize(n) = warm[o]
\* the warmed up elements must match some allowed size
WarmFits(o, k) == IF attempt = 0 THEN k = WarmSize(cfg.n[o])
                  ELSE k >= WarmSize(MinSize(o)) /\ k <= WarmSize(MaxSize(o))

Start == /\ pc' = 1 /\ size' = <<0,0,0,0>> /\ warm' = <<-1,-1,-1,-1>> /\ verdicts' = <<>>

NoMeas == [t |-> 0, lo |-> 0, hi |-> 0, d |-> 0, mlo |-> 0, mhi |-> 0]
StartWith(c) ==
  /\ cfg = c /\ pc = 1 /\ attempt = 0 /\ size = <<0,0,0,0>> /\ warm = <<-1,-1,-1,-1>>
  /\ meas = [o \in Ops |-> <<NoMeas, NoMeas>>] /\ out = "running" /\ verdicts = <<>>

\* ------------------------------------------------------------- passes
UserPanics == out' = "panic" /\ UNCHANGED <<cfg, pc, attempt, size, warm, meas, verdicts>>

\* the warm up of `o` on the elements 0..k-1
Warm(o, k) ==
  /\ out = "running" /\ Now.k = "warm" /\ Now.o = o /\ WarmFits(o, k)
  /\ warm' = [warm EXCEPT ![o] = k] /\ pc' = Skip(pc) + 1
  /\ UNCHANGED <<cfg, attempt, size, meas, out, verdicts>>

WarmReset(n) ==
  /\ out = "running" /\ Now.k = "reset"
  /\ n = IF Requested(1) THEN warm[1] ELSE 0
  /\ pc' = Skip(pc) + 1 /\ UNCHANGED <<cfg, attempt, size, warm, meas, out, verdicts>>

\* the range of elements of pass p
Lo(n, p) == IF p = 1 THEN 0 ELSE n
Hi(n, p) == IF p = 1 THEN n ELSE 2 * n

\* pass p of operation o, on n elements, consuming m
Pass(o, p, n, m) ==
  /\ out = "running" /\ Now.k = "pass" /\ Now.o = o /\ Now.p = p /\ SizeFits(o, n)
  /\ size' = [size EXCEPT ![o] = n]
  /\ meas' = [meas EXCEPT ![o][p] = m]
  /\ pc' = Skip(pc) + 1
  /\ UNCHANGED <<cfg, attempt, warm, out, verdicts>>

\* ------------------------------------------------------------- verdicts
\* all the classes between the best and the worst ones, measurements being only known to lie within intervals
Between(best, worst) == {c \in 0..16 : (\E b \in best : b <= c) /\ (\E w \in worst : w >= c)}
SetSize == IF Requested(1) THEN size[1] ELSE 0
RelatesToSets(o) == o \in {2, 3}       \* reads & updates are analysed against the set sizes; the others, against the elements they add or remove
ClassOf(o, a, b) == IF RelatesToSets(o) THEN Regular(a, b, SetSize, 2 * SetSize) ELSE SetResizing(a, b, size[o])
\* laws are undefined for a single element
Degenerate(o) == (IF RelatesToSets(o) THEN SetSize ELSE size[o]) < 2
Reduced(a, b) == Max(a, b) \div Max(1, Gcd(a, b))
ClassesFor(o, a1, a2, b1, b2, absolute) ==     \* first pass in a1..a2, second one in b1..b2
  LET exact == a1 = a2 /\ b1 = b2
      \* TLC's integers are small: scale down what is too big for the arithmetic of the laws, widening the intervals accordingly
      k     == 1 + Max(a2, b2) \div 1500
      direct== exact /\ Reduced(a1, b1) <= 1600
      best  == IF direct THEN ClassOf(o, a1, b1) ELSE ClassOf(o, (a2 \div k) + 1, b1 \div k)
      worst == IF direct THEN ClassOf(o, a1, b1) ELSE ClassOf(o, a1 \div k, (b2 \div k) + 1)
      all   == Between(best, worst)
  IN IF exact /\ a1 = b1 THEN {1}
     ELSE IF Degenerate(o) THEN 0..16
     ELSE IF direct /\ absolute THEN all
     \* beyond n^4, the exponential law depends on the unit measurements are in
     ELSE IF RelatesToSets(o) /\ \E c \in all : c >= 14 THEN all \cup 14..16 ELSE all

\* times are averaged over the threads
TimeClasses(o) == LET a == meas[o][1].t  b == meas[o][2].t  th == cfg.th[o]
                  IN IF a % th = 0 /\ b % th = 0 THEN ClassesFor(o, a \div th, a \div th, b \div th, b \div th, TRUE)
                     ELSE ClassesFor(o, a, a, b, b, FALSE)
\* threads and reporting take some memory themselves
Noise(o) == 4 + 2 * cfg.th[o]
\* (in builds that don't meter allocations, no memory is seen)
UnmeteredSpaceClasses(o) == {1}
SpaceClasses(o) == ClassesFor(o, meas[o][1].lo, meas[o][1].hi + Noise(o), meas[o][2].lo, meas[o][2].hi + Noise(o), FALSE)

Attempts == Max(1, cfg.max)

Judge(o) ==
  /\ out = "running" /\ Now.k = "judge" /\ Now.o = o
  /\ \E tx \in {c > cfg.tl[o] : c \in TimeClasses(o)}, sx \in {c > cfg.sl[o] : c \in SpaceClasses(o)} :
       /\ verdicts' = Append(verdicts, [o |-> o, t |-> tx, s |-> sx])
       /\ pc' = Skip(pc) + 1
       /\ out' = IF tx THEN (IF attempt + 1 < Attempts THEN "retry" ELSE "panic")
                 ELSE IF sx THEN "panic" ELSE "running"
  /\ UNCHANGED <<cfg, attempt, size, warm, meas>>

RetryReset(n) ==
  /\ out = "retry"
  /\ n = IF Requested(1) THEN 2 * size[1] ELSE 0
  /\ out' = "running" /\ attempt' = attempt + 1 /\ Start /\ UNCHANGED <<cfg, meas>>

Finish == /\ out = "running" /\ Now.k = "end" /\ out' = "ok" /\ UNCHANGED <<cfg, pc, attempt, size, warm, meas, verdicts>>

Done == out \in {"ok", "panic"}

\* ------------------------------------------------------------- properties
LastVerdict == verdicts[Len(verdicts)]
JudgedOps == {verdicts[i].o : i \in 1..Len(verdicts)}
\* C08
PassesIffAllLimitsMet ==
  /\ out = "ok" => /\ JudgedOps = {o \in Ops : Requested(o)}
                   /\ \A i \in 1..Len(verdicts) : ~verdicts[i].t /\ ~verdicts[i].s
  /\ out = "retry" => LastVerdict.t /\ attempt + 1 < Attempts
FirstExcessEndsTheAttempt ==
  \A i \in 1..Len(verdicts) : i < Len(verdicts) => ~verdicts[i].t /\ ~verdicts[i].s
AttemptsBounded == attempt < Attempts
SpaceNeverRetried == out = "retry" => LastVerdict.t
\* retries exercise every operation, on a sensible number of elements
SizesSensible == \A o \in Ops : size[o] # 0 => size[o] >= 1 /\ size[o] >= cfg.n[o] \div 10 /\ 2 * size[o] <= 3 * cfg.n[o]
\* C09
WarmupsComplete == cfg.w > 0 /\ pc > 5 => \A o \in Ops : Requested(o) => warm[o] >= 0
NothingWarmedOtherwise == cfg.w = 0 => \A o \in Ops : warm[o] = -1
\* C06
OnlyRequestedRun == \A o \in Ops : ~Requested(o) => size[o] = 0 /\ warm[o] = -1
DoneIsFinal == [][~Done]_vars
Ends == <>Done
=============================================================================
