------------------------------ MODULE CrudTrace ------------------------------
(***************************************************************************)
(* Checks that recorded executions of the CRUD analyser are behaviours of    *)
(* CrudRunner. A trace has one event per call of a user closure, sorted by   *)
(* the moment it started:                                                   *)
(*   o -- operation (0 = reset); n -- its argument; th -- calling thread;    *)
(*   s, e -- sequence numbers of its start and of its end; t -- time spent;  *)
(*   d -- memory kept (+) or released (-); pl..ph -- enclosure of the highest *)
(*   memory usage it led to; ml..mh -- of the lowest; x -- it panicked        *)
(***************************************************************************)
EXTENDS CrudRunner, FiniteSets, TLC, TraceBatch, FiniteSetsExt

CONSTANT Aspects      \* properties whose specific clauses are enforced

VARIABLES tid, l,
  last,     \* sequence number of the latest end of a call
  cur,      \* memory in use by the closures
  created   \* per pass, the elements in the order created, by a single thread
tvars == <<vars, tid, l, last, cur, created>>

Tr == Traces[tid]
Ev == Traces[tid].ev

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ last = 0 /\ cur = 0 /\ created = <<<<>>, <<>>>> /\ StartWith(Traces[tid].cfg)

\* how many of the next events are calls of `o` (but no more than `limit`)
RECURSIVE RunLength(_,_,_)
RunLength(o, i, limit) == IF limit = 0 \/ i > Len(Ev) THEN 0 ELSE IF Ev[i].o # o THEN 0 ELSE 1 + RunLength(o, i + 1, limit - 1)

Window(k) == l .. l + k - 1
ThreadsOf(W) == {Ev[i].th : i \in W}
CallsOf(W, t) == {i \in W : Ev[i].th = t}
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y >= x

\* each element exactly once
ExactlyOnce(W, lo, hi) == Cardinality(W) = hi - lo /\ {Ev[i].n : i \in W} = lo .. hi - 1
\* each thread processes a contiguous, monotonic range
Contiguous(W) ==
  \A t \in ThreadsOf(W) :
     LET C == CallsOf(W, t)  first == MinOf(C, 0)  final == MaxOf(C, 0)  k == Cardinality(C)
         rank(i) == Cardinality({j \in C : j < i})
     IN k > 1 => \/ \A i \in C : Ev[i].n = Ev[first].n + rank(i)
                 \/ \A i \in C : Ev[i].n = Ev[first].n - rank(i)
\* shares differ by at most one element
Balanced(W, th) ==
  LET T == ThreadsOf(W)
      shares == {Cardinality(CallsOf(W, t)) : t \in T} \cup (IF Cardinality(T) < th THEN {0} ELSE {})
  IN Cardinality(T) <= th /\ \A a, b \in shares : a - b <= 1
\* no call starts before those of the previous passes ended
After(W) == \A i \in W : Ev[i].s > last
Ends_(W) == MaxOf({Ev[i].e : i \in W}, last)
SumD(W) == FoldSet(LAMBDA i, acc : acc + Ev[i].d, 0, W)
SumT(W) == FoldSet(LAMBDA i, acc : acc + Ev[i].t, 0, W)

MeasOf(W) == [t |-> SumT(W), d |-> SumD(W),
              lo |-> MaxOf({Ev[i].pl - cur : i \in W} \cup {0}, 0), hi |-> MaxOf({Ev[i].ph - cur : i \in W} \cup {0}, 0),
              mlo |-> MinOf({Ev[i].ml - cur : i \in W} \cup {0}, 0), mhi |-> MinOf({Ev[i].mh - cur : i \in W} \cup {0}, 0)]

NoPanics(W) == \A i \in W : Ev[i].x = 0
WellRun(W, lo, hi, th) ==
  /\ ExactlyOnce(W, lo, hi) /\ NoPanics(W)
  /\ ("C07" \in Aspects => After(W))
  /\ ("C06" \in Aspects => Contiguous(W) /\ Balanced(W, th))

Take(k) == l' = l + k /\ last' = Ends_(Window(k)) /\ cur' = cur + SumD(Window(k)) /\ UNCHANGED tid

Order(W) == [i \in 1..Cardinality(W) |-> Ev[l + i - 1].n]
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
LIFO(o, p, W) == ("C07" \in Aspects /\ o = 4 /\ cfg.th[4] = 1 /\ cfg.th[1] = 1 /\ size[1] = Cardinality(W)) => Order(W) = Reversed(created[p])

TWarm ==
  /\ out = "running" /\ Now.k = "warm"
  /\ LET o == Now.o  run == RunLength(o, l, WarmSize(MaxSize(o))) IN
     \E k \in IF attempt = 0 THEN {WarmSize(cfg.n[o])} ELSE 0 .. run :
        /\ k <= run
        /\ Warm(o, k)
        /\ WellRun(Window(k), 0, k, cfg.th[o])
        /\ Take(k) /\ UNCHANGED created

\* the argument of resets is C09's
ArgOk(n, e) == "C09" \in Aspects => n = e
TReset ==
  /\ l <= Len(Ev) /\ Ev[l].o = 0 /\ Ev[l].x = 0 /\ ("C07" \in Aspects => Ev[l].s > last)
  /\ \/ out = "running" /\ Now.k = "reset" /\ LET n == IF Requested(1) THEN warm[1] ELSE 0 IN ArgOk(n, Ev[l].n) /\ WarmReset(n)
     \/ out = "retry" /\ LET n == IF Requested(1) THEN 2 * size[1] ELSE 0 IN ArgOk(n, Ev[l].n) /\ RetryReset(n)
  /\ Take(1) /\ created' = <<<<>>, <<>>>>

TPass ==
  /\ out = "running" /\ Now.k = "pass"
  /\ LET o == Now.o  p == Now.p  run == RunLength(o, l, MaxSize(o)) IN
     \E n \in IF attempt = 0 THEN {cfg.n[o]} ELSE MinSize(o) .. run :
        /\ n <= run
        /\ SizeFits(o, n)
        /\ LET W == Window(n) IN
           /\ WellRun(W, Lo(n, p), Hi(n, p), cfg.th[o])
           /\ LIFO(o, p, W)
           /\ Pass(o, p, n, MeasOf(W))
           /\ created' = IF o = 1 THEN [created EXCEPT ![p] = Order(W)] ELSE created
        /\ Take(n)

\* a closure panics: the other threads may or may not go on, but nothing else is run
TPanic ==
  /\ out = "running" \/ out = "retry"
  /\ LET W == l .. Len(Ev) IN
     /\ \E i \in W : Ev[i].x = 1
     /\ IF Ev[l].o = 0
        THEN Len(Ev) = l /\ (out = "retry" \/ Now.k = "reset")
        ELSE /\ out = "running" /\ Now.k \in {"warm", "pass"}
             /\ \A i \in W : Ev[i].o = Now.o
             /\ Cardinality({Ev[i].n : i \in W}) = Cardinality(W)
             /\ LET hi == IF Now.k = "warm" THEN WarmSize(MaxSize(Now.o)) ELSE Hi(MaxSize(Now.o), Now.p) IN \A i \in W : Ev[i].n < hi
             /\ \A i \in W : Ev[i].x = 1 => \A j \in CallsOf(W, Ev[i].th) : j <= i
     /\ ("C07" \in Aspects => After(W))
     /\ UserPanics
     /\ Take(Len(Ev) - l + 1) /\ UNCHANGED created

Silent == /\ \/ out = "running" /\ Now.k = "judge" /\ Judge(Now.o)
             \/ Finish
          /\ UNCHANGED <<tid, l, last, cur, created>>

\* ------------------------------------------------------------- what the returned analyses say
Abs(x) == IF x < 0 THEN -x ELSE x
MeasuresAgree(o) ==
  \A p \in 1..2 :
    LET m == Tr.an[o].m[p]  q == meas[o][p]  th == cfg.th[o]  noise == Noise(o) IN
    /\ Abs(m.t * th - 1000 * q.t) <= th
    /\ Abs(m.a - q.d) <= noise
    /\ m.x >= q.lo - 1 /\ m.x <= q.hi + noise
    /\ m.i <= q.mhi + 1 /\ m.i >= q.mlo - noise
ClassesAgree(o) == Tr.an[o].tc \in TimeClasses(o) /\ Tr.an[o].sc \in SpaceClasses(o)
AnalysesAgree ==
  (cfg.api = "analyse" /\ out = "ok") =>
     \A o \in Ops : /\ ("C06" \in Aspects => (Tr.an[o].p = 1 <=> Requested(o)))
                    /\ ("C20" \in Aspects /\ Requested(o) => Tr.an[o].p = 1 /\ MeasuresAgree(o) /\ ClassesAgree(o))

Outcome == /\ l = Len(Ev) + 1 /\ Done /\ Tr.out = out
           /\ last < Tr.end /\ Tr.overflow = 0
           /\ AnalysesAgree
           /\ l' = l + 1 /\ UNCHANGED <<vars, tid, last, cur, created>>

TNext == TWarm \/ TReset \/ TPass \/ TPanic \/ Silent \/ Outcome
TSpec == TInit /\ [][TNext]_tvars

Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
