---------------------------- MODULE BigWarmTrace ----------------------------
(***************************************************************************)
(* Warm-ups of too many elements to be logged one by one (tens of millions,  *)
(* as needed to get past 32 bits in n * percentage): the same rules of        *)
(* CrudRunner's Warm & WarmReset, on the number of calls, the extremes and    *)
(* the sum (modulo a prime) of the elements -- all of 0..k-1, once.          *)
(***************************************************************************)
EXTENDS TraceBatch

VARIABLES tid, l
WarmSize(n, w) == (n \div 100) * w + ((n % 100) * w) \div 100
P == 46337
Right(t) ==
  LET k == WarmSize(t.cfg.n, t.cfg.w) IN
  /\ t.calls = k /\ t.lo = 0 /\ t.hi = k - 1
  /\ t.sum2 = ((k % P) * ((k - 1) % P)) % P
  /\ t.resets = 1 /\ t.told = k
  /\ t.out = "panic"        \* the closure panics at the first measured pass

TInit == tid \in 1..Len(Traces) /\ l = 1
TNext == l = 1 /\ Right(Traces[tid]) /\ l' = 2 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_<<tid, l>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : 2)
=============================================================================
