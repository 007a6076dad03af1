---------------------------- MODULE AllocHistory ----------------------------
(***************************************************************************)
(* A metered allocator used by several threads, as its users see it: memory   *)
(* operations change the memory in use at some moment between their call and  *)
(* their return; save points and queries tell about it.                      *)
(*   - the memory in use told by a save point or a query is the one of some   *)
(*     moment in between its call and its return;                            *)
(*   - extremes enclose the memory in use at both ends of the measurement and *)
(*     are levels that the memory in use really had;                         *)
(*   - if both the save point and the query had no operations in progress and *)
(*     no other save point came in between, the extremes are exact;           *)
(*   - so are the counters, other save points or not;                        *)
(*   - a save point is only lost to more than n other ones.                  *)
(* As in RingHistory: sets of the states it may be in. When the changes of the *)
(* memory in use are observed, there is a single one.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Blocks == 0..12
SaveIds == 0..5
NoSave == [on |-> FALSE, used |-> 0, lo |-> 0, hi |-> 0, exact |-> FALSE, quiet |-> FALSE, ct |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, others |-> 0]
NoOp == [o |-> "idle", b |-> 0, n |-> 0, s |-> 0, was |-> 0, done |-> FALSE, during |-> {}, quiet |-> TRUE, others |-> 0]
Start(n, threads) == [n |-> n, used |-> 0, levels |-> {0}, size |-> [b \in Blocks |-> 0], ct |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>,
                      saves |-> [i \in SaveIds |-> NoSave], th |-> [t \in 0..threads |-> NoOp]]

MemoryOps == {"alloc", "zalloc", "free", "realloc"}
\* by how much the operation of the thread changes the memory in use
Delta(s, t) == LET x == s.th[t] IN CASE x.o \in {"alloc", "zalloc"} -> x.n
                                     [] x.o = "free" -> -x.was
                                     [] x.o = "realloc" -> x.n - x.was
                                     [] OTHER -> 0
Counted(x) == CASE x.o = "alloc" -> <<1, 0, 0, 0, x.n, 0, 0, 0, 0>>
                [] x.o = "free" -> <<0, 1, 0, 0, 0, x.was, 0, 0, 0>>
                [] x.o = "zalloc" -> <<0, 0, 1, 0, 0, 0, x.n, 0, 0>>
                [] x.o = "realloc" -> <<0, 0, 0, 1, 0, 0, 0, x.was, x.n>>

MayEffect(s, t) == s.th[t].o \in MemoryOps /\ ~s.th[t].done
Effect(s, t) ==
  LET u == s.used + Delta(s, t) IN
  [s EXCEPT !.used = u, !.levels = @ \cup {u},
            !.saves = [i \in SaveIds |-> [s.saves[i] EXCEPT !.lo = IF u < @ THEN u ELSE @, !.hi = IF u > @ THEN u ELSE @]],
            !.th = [x \in DOMAIN s.th |-> [s.th[x] EXCEPT !.done = IF x = t THEN TRUE ELSE @, !.during = IF s.th[x].o = "idle" THEN {} ELSE @ \cup {u}]]]

\* -------------------------------------------------------------------- calls
Busy(s) == {t \in DOMAIN s.th : s.th[t].o # "idle"}
Called(s, t, o, b, n, sv) ==
  LET busy == Busy(s)
      saving == {x \in busy : s.th[x].o = "save"}
      x == [NoOp EXCEPT !.o = o, !.b = b, !.n = n, !.s = sv, !.was = s.size[b], !.quiet = (busy = {}), !.during = {s.used},
                        !.others = IF o = "save" THEN Cardinality(saving) ELSE 0]
  IN [s EXCEPT !.th = [y \in DOMAIN s.th |-> IF y = t THEN x ELSE IF y \in busy THEN [s.th[y] EXCEPT !.quiet = FALSE, !.others = IF o = "save" THEN @ + 1 ELSE @] ELSE s.th[y]],
               !.saves = IF o = "save" THEN [i \in SaveIds |-> [s.saves[i] EXCEPT !.exact = FALSE, !.others = @ + 1]] ELSE @]
Call(S, t, o, b, n, sv) == {Called(s, t, o, b, n, sv) : s \in {x \in S : x.th[t].o = "idle"}}

\* ------------------------------------------------------------------ returns
\* r: [ok, used, lo, hi, ct]
Freed(s, t) == [s EXCEPT !.th[t] = NoOp]
RetOf(s, t, r) ==
  LET x == s.th[t] IN
  CASE x.o \in MemoryOps ->
         IF r.ok /\ (x.done \/ Delta(s, t) = 0)
         THEN {[Freed(s, t) EXCEPT !.size[x.b] = IF x.o = "free" THEN 0 ELSE x.n, !.ct = [k \in 1..9 |-> @[k] + Counted(x)[k]]]} ELSE {}
    [] x.o = "save" ->
         IF r.ok /\ r.used \in x.during
         THEN {[Freed(s, t) EXCEPT !.saves[x.s] = [on |-> TRUE, used |-> r.used, lo |-> s.used, hi |-> s.used, exact |-> x.quiet, quiet |-> x.quiet, ct |-> s.ct, others |-> x.others]]} ELSE {}
    [] x.o = "query" ->
         LET sv == s.saves[x.s] IN
         IF sv.on /\ (IF ~r.ok THEN sv.others > s.n
                      ELSE /\ r.used \in x.during
                           /\ r.lo \in s.levels /\ r.hi \in s.levels
                           /\ r.lo <= r.used /\ r.lo <= sv.used /\ r.hi >= r.used /\ r.hi >= sv.used
                           /\ (x.quiet /\ sv.quiet => r.ct = [k \in 1..9 |-> s.ct[k] - sv.ct[k]])
                           /\ (x.quiet /\ sv.exact => r.lo = sv.lo /\ r.hi = sv.hi))
         THEN {Freed(s, t)} ELSE {}
    [] OTHER -> {}
Ret(S, t, r) == UNION {RetOf(s, t, r) : s \in S}

\* when the changes of the memory in use are observed: it becomes u
Use(S, t, u) == {Effect(s, t) : s \in {x \in S : MayEffect(x, t) /\ x.used + Delta(x, t) = u}}
\* ... and when they aren't
RECURSIVE CloseFrom(_, _)
CloseFrom(frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET next == (UNION {{Effect(s, t) : t \in {x \in DOMAIN s.th : MayEffect(s, x)}} : s \in frontier}) \ seen
       IN CloseFrom(next, seen \cup next)
Close(S) == CloseFrom(S, S)
=============================================================================
