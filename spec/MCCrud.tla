------------------------------- MODULE MCCrud -------------------------------
(* Model checking configurations of CrudRunner, which are also the source of the scenarios replayed on the code *)
EXTENDS CrudRunner, TLC, Json

CONSTANT Family
VARIABLES plan,     \* per attempt, what is peculiar to it: which operation misbehaves and how
          scale     \* which of the allowed sizes this attempt uses: the smallest (1), the original (2) or the biggest ones (3)

Flat(a, b) == <<"flat", a, b>>
Boom(a) == <<"boom", a>>
Uneven(a, b) == <<"uneven", a, b>>
Release == <<"release">>
Style(t, m) == [t |-> t, m |-> m, tmp |-> 0, panic |-> <<>>, slow |-> 0]
Nop == Style(Flat(0, 0), Flat(0, 0))

Same(x) == <<x, x, x, x>>
Cfg(n, th, w) == [api |-> "test", n |-> n, th |-> th, w |-> w, max |-> 1, tl |-> Same(16), sl |-> Same(16)]
With(q, o, x) == [q EXCEPT ![o] = x]

CDU2 == <<496, 1000, 1304, 1600, 2200, 3000, 4000>>
RUU2 == <<496, 1000, 1152, 1336, 1600, 2000, 2304, 2664, 3200, 4000, 6000, 8000, 12000, 16000, 100000, 1000000, 1500000>>
SPU2 == <<496, 1000, 1152, 1336, 1600, 2000, 2304, 2664, 3200, 4000, 6000, 8000, 12000, 16000, 24000>>
U2For(o, c) == IF o \in {1, 4} THEN CDU2[c + 1] ELSE RUU2[c + 1]
Worst(o) == IF o \in {1, 4} THEN 6 ELSE 16
Around(o, c) == {c - 1, c, c + 1, Worst(o)} \cap 0..Worst(o)
AroundSp(o, c) == {c - 1, c, c + 1} \cap 0..(IF o \in {1, 4} THEN 6 ELSE 14)

Ns == {0, 1, 7}
Cfgs ==
  CASE Family = "subsets" ->
         {[Cfg(<<a, b, c, d>>, Same(th), w) EXCEPT !.api = api] : a \in Ns, b \in Ns, c \in Ns, d \in Ns, th \in {1, 3}, w \in {0, 50}, api \in {"test", "analyse"}}
    [] Family = "threads" ->
         {[Cfg(Same(n), Same(th), w) EXCEPT !.api = "analyse"] : n \in 1..12, th \in 1..8, w \in {0}}
         \cup {[Cfg(Same(n), Same(th), w) EXCEPT !.api = "analyse"] : n \in {1, 5, 9, 33}, th \in {1, 4, 13}, w \in {1, 30, 100}}
         \cup {Cfg(Same(6), <<a, b, c, d>>, w) : a \in {0, 1, 2}, b \in {0, 4}, c \in {0, 1, 9}, d \in {0, 1, 2}, w \in {0, 50}}
         \cup {Cfg(Same(n), Same(th), 0) : n \in {64, 101}, th \in {7, 8}}
    [] Family = "lifo" ->
         {Cfg(<<n, r, u, n>>, <<1, t, t, 1>>, w) : n \in {2, 3, 10}, r \in {0, 3}, u \in {0, 5}, t \in {1, 2}, w \in {0, 60}}
         \cup {Cfg(Same(n), Same(1), 0) : n \in 2..20}
    [] Family = "warmup" ->
         {Cfg(Same(n), Same(th), w) : n \in {1, 9, 10, 50, 99}, th \in {1, 3}, w \in {1, 9, 10, 33, 99, 100}}
         \cup {Cfg(<<a, b, c, d>>, Same(2), w) : a \in {0, 10}, b \in {0, 20}, c \in {0, 30}, d \in {0, 40}, w \in {25, 77}}
         \cup {Cfg(<<10, 5, 5, 5>>, <<t, 1, 1, 1>>, 50) : t \in {0, 2}}
    [] Family = "timelimits" ->
         UNION {{[Cfg(Same(8), Same(th), 0) EXCEPT !.tl = With(Same(16), o, l), !.max = mx] : l \in 0..Worst(o), th \in {1, 2}, mx \in {0, 1}} : o \in Ops}
         \cup UNION {{[Cfg(n, Same(1), 0) EXCEPT !.tl = With(Same(16), o, l)] : l \in 0..Worst(o), n \in {<<8, 4, 20, 8>>, <<8, 16, 3, 6>>}} : o \in Ops}
    [] Family = "spacelimits" ->
         UNION {{[Cfg(Same(8), Same(1), 0) EXCEPT !.sl = With(Same(16), o, l)] : l \in 0..(IF o \in {1, 4} THEN 6 ELSE 13)} : o \in Ops}
         \cup UNION {{[Cfg(<<8, 4, 20, 8>>, Same(1), 0) EXCEPT !.sl = With(Same(16), o, l)] : l \in 0..(IF o \in {1, 4} THEN 6 ELSE 13)} : o \in {2, 3}}
    [] Family = "retry" ->
         {[Cfg(Same(20), Same(th), w) EXCEPT !.max = mx, !.tl = <<5, 9, 9, 5>>] : th \in {1, 2}, w \in {0, 10}, mx \in {0, 1, 2, 4}}
         \cup {[Cfg(n, Same(1), w) EXCEPT !.max = mx, !.tl = <<5, 9, 9, 5>>] : n \in {<<20, 3, 8, 20>>, <<20, 20, 4, 5>>, <<3, 4, 5, 6>>, <<0, 9, 0, 20>>, <<20, 0, 0, 0>>}, w \in {0, 30}, mx \in {3}}
         \cup {[Cfg(Same(20), <<0, 1, 1, 2>>, w) EXCEPT !.max = 3, !.tl = <<5, 9, 9, 5>>] : w \in {0, 10}}
         \cup {[Cfg(Same(1), Same(1), 0) EXCEPT !.max = 5, !.tl = Same(0)]}
    [] Family = "retryspace" ->
         {[Cfg(Same(20), Same(1), 0) EXCEPT !.max = mx, !.tl = <<5, 9, 9, 5>>, !.sl = <<5, 8, 8, 5>>] : mx \in {1, 3}}
    [] Family = "manyretries" ->     \* enough for patterns of sizes to start over
         {[Cfg(n, Same(1), 0) EXCEPT !.max = mx, !.tl = <<5, 9, 9, 5>>] : n \in {<<20, 0, 0, 0>>, <<10, 3, 3, 10>>}, mx \in {16, 17, 33}}
         \cup {[Cfg(<<20, 0, 0, 0>>, Same(1), 0) EXCEPT !.max = 260, !.tl = <<5, 9, 9, 5>>]}     \* past what 8 bits hold
    [] Family = "panic" ->
         {[Cfg(Same(4), Same(th), w) EXCEPT !.max = 3, !.tl = <<16, 9, 16, 16>>, !.api = api] : th \in {1, 3}, w \in {0, 50}, api \in {"test", "analyse"}}
    [] Family = "measure" ->
         {[Cfg(Same(n), <<t, u, t, u>>, w) EXCEPT !.api = "analyse"] : n \in {4, 9, 12}, t \in {1, 2, 5}, u \in {1, 3, 16}, w \in {0, 50}}
         \cup {[Cfg(n, th, w) EXCEPT !.api = "analyse"] : n \in {<<1, 1, 1, 1>>, <<2, 20, 3, 2>>, <<24, 5, 24, 24>>, <<0, 6, 0, 0>>},
                                                         th \in {Same(3), Same(11), <<24, 1, 2, 7>>}, w \in {0, 100}}

Fine == [o |-> 0, s |-> Nop]
Bad(o, s) == [o |-> o, s |-> s]
PanicStyle(w, n, slow) == [Style(Flat(5, 5), Flat(0, 0)) EXCEPT !.panic = <<w, n>>, !.slow = slow]

\* what may be peculiar to the current attempt
Peculiar ==
  CASE Family = "timelimits" ->
         LET o == CHOOSE x \in Ops : cfg.tl[x] # 16 \/ \A y \in Ops : cfg.tl[y] = 16
         IN {Bad(o, Style(Flat(125 * cfg.th[o], (U2For(o, c) \div 8) * cfg.th[o]), Flat(0, 0))) : c \in Around(o, cfg.tl[o] % 16)}
    [] Family = "spacelimits" ->
         LET o == CHOOSE x \in Ops : cfg.sl[x] # 16
         IN {Bad(o, Style(Flat(1, 1), Flat(125, SPU2[c + 1] \div 8))) : c \in AroundSp(o, cfg.sl[o])}
             \cup (IF o = 1 THEN {Bad(o, Style(Flat(1, 1), Flat(125, CDU2[c + 1] \div 8))) : c \in AroundSp(o, cfg.sl[o])} ELSE {})
    [] Family = "retry" ->
         {Fine} \cup {Bad(o, Style(Boom(1), Flat(0, 0))) : o \in {x \in Ops : Requested(x) /\ (attempt >= 2 => x = 4)}}
    [] Family = "manyretries" ->
         {Bad(IF Requested(4) /\ attempt % 2 = 0 THEN 4 ELSE 1, Style(Boom(1), Flat(0, 0)))} \cup (IF attempt + 2 > Attempts THEN {Fine} ELSE {})
    [] Family = "retryspace" ->
         {Fine} \cup {Bad(o, Style(Boom(1), Flat(64, 64))) : o \in Ops}
                \cup {Bad(o, Style(Flat(5, 5), Boom(4))) : o \in Ops}
                \cup {Bad(o, Style(Boom(1), Boom(4))) : o \in Ops}
    [] Family = "panic" ->
         LET where == IF cfg.w > 0 THEN {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 6>>} ELSE {<<1, e>> : e \in 0..7}
         IN {Bad(o, PanicStyle(x[1], x[2], slow)) : o \in Ops, x \in where, slow \in IF cfg.th[1] > 1 /\ cfg.w = 0 THEN {0, 2} ELSE {0}}
            \cup (IF cfg.w > 0 THEN {Bad(5, PanicStyle(0, 0, 0))} ELSE {})
            \cup (IF attempt = 0 /\ cfg.api = "test" /\ cfg.w = 0 THEN {Bad(2, Style(Boom(1), Flat(0, 0)))} ELSE {})
            \cup (IF attempt <= 1 /\ cfg.api = "test" THEN {Bad(6, Style(Boom(1), Flat(0, 0)))} ELSE {})     \* to be retried, but the reset fails
    [] Family = "measure" ->
         {Bad(0, Style(t, Flat(0, 0))) : t \in {Uneven(3, 7), Uneven(11, 11), Uneven(100, 9), Flat(1, 1), Flat(0, 0), Flat(997, 1999)}}
         \cup {Bad(7, Style(Uneven(11, 5), Flat(0, 0)))}     \* reads release what was created
    [] OTHER -> {Fine}

This == plan[attempt + 1]
\* how the operation `o` behaves in an attempt with peculiarity `x`
StyleOf(o, x) ==
  IF Family = "measure"
  THEN CASE x.o = 7 /\ o = 1 -> [x.s EXCEPT !.m = Flat(90, 40)]
         [] x.o = 7 /\ o = 2 -> [x.s EXCEPT !.m = Release]
         [] o = 1 -> [x.s EXCEPT !.m = Flat(40, 90), !.tmp = 70]
         [] o = 4 -> [x.s EXCEPT !.m = Release]
         [] o = 2 -> [x.s EXCEPT !.tmp = 200]
         [] OTHER -> [x.s EXCEPT !.m = Flat(20, 30)]
  ELSE IF x.o = o \/ (x.o = 6 /\ o = 2) THEN x.s
  ELSE IF Family = "timelimits" THEN Style(Flat(125 * Max(1, cfg.th[o]), 125 * Max(1, cfg.th[o])), Flat(0, 0))
  ELSE IF Family = "retryspace" THEN Style(Flat(5, 5), Flat(64, 64))
  ELSE IF Family \in {"retry", "manyretries"} THEN Style(Flat(5, 5), Flat(0, 0))
  ELSE IF Family = "panic" /\ x.s.slow > 0 /\ x.s.panic # <<>> THEN Style(Flat(5, 5), Flat(0, 0))
  ELSE IF Family = "panic" THEN Style(Flat(5, 5), Flat(0, 0))
  ELSE Nop

RECURSIVE SumTo(_,_,_)
SumTo(f(_), a, b) == IF a >= b THEN 0 ELSE f(a) + SumTo(f, a + 1, b)
P4(i) == (i + 1) * (i + 1) * (i + 1) * (i + 1)
P2(i) == (i + 1) * (i + 1)
U(i) == (i * 7 + 3) % 11
Cost(c, isTime, p, n, declared) ==
  CASE c[1] = "flat" -> SumTo(LAMBDA i : IF i < declared THEN c[2] ELSE c[3], Lo(n, p), Hi(n, p))
    [] c[1] = "boom" -> c[2] * (IF isTime THEN SumTo(P4, Lo(n, p), Hi(n, p)) ELSE SumTo(P2, Lo(n, p), Hi(n, p)))
    [] c[1] = "uneven" -> SumTo(LAMBDA i : (IF i < declared THEN c[2] ELSE c[3]) * U(i), Lo(n, p), Hi(n, p))
    [] c[1] = "release" -> 0
MeasFor(o, p, n) ==
  LET s == StyleOf(o, This)  m == Cost(s.m, FALSE, p, n, cfg.n[o])
  IN [t |-> Cost(s.t, TRUE, p, n, cfg.n[o]), lo |-> m, hi |-> m + s.tmp * cfg.th[o], d |-> m, mlo |-> 0, mhi |-> 0]

Sizes(o) == {<<MinSize(o), cfg.n[o], MaxSize(o)>>[scale]}
\* elements called by the operation o on pass p (0 = warm up)
PanicsOn(o, p, n) ==
  LET s == StyleOf(o, This) IN
  s.panic # <<>> /\ IF p = 0 THEN s.panic[1] = 0 /\ s.panic[2] < n
                    ELSE s.panic[1] = 1 /\ s.panic[2] >= Lo(n, p) /\ s.panic[2] < Hi(n, p)

ChoosePlan == plan' \in {Append(plan, x) : x \in Peculiar'} /\ scale' \in 1..3
MCInit == (\E c \in Cfgs : StartWith(c)) /\ plan \in {<<x>> : x \in Peculiar} /\ scale = 2
MCNext ==
  \/ /\ out = "running" /\ Now.k = "warm"
     /\ \E n \in Sizes(Now.o) : LET k == WarmSize(n) IN IF PanicsOn(Now.o, 0, k) THEN UserPanics ELSE Warm(Now.o, k)
     /\ UNCHANGED <<plan, scale>>
  \/ /\ out = "running" /\ Now.k = "reset"
     /\ IF This.o = 5 THEN UserPanics ELSE WarmReset(IF Requested(1) THEN warm[1] ELSE 0)
     /\ UNCHANGED <<plan, scale>>
  \/ /\ out = "running" /\ Now.k = "pass"
     /\ \E n \in Sizes(Now.o) : /\ SizeFits(Now.o, n)
                                /\ IF PanicsOn(Now.o, Now.p, n) THEN UserPanics ELSE Pass(Now.o, Now.p, n, MeasFor(Now.o, Now.p, n))
     /\ UNCHANGED <<plan, scale>>
  \/ out = "running" /\ Now.k = "judge" /\ Judge(Now.o) /\ UNCHANGED <<plan, scale>>
  \/ out = "retry" /\ This.o = 6 /\ UserPanics /\ UNCHANGED <<plan, scale>>
  \/ This.o # 6 /\ RetryReset(IF Requested(1) THEN 2 * size[1] ELSE 0) /\ ChoosePlan
  \/ Finish /\ UNCHANGED <<plan, scale>>
MCSpec == MCInit /\ [][MCNext]_<<vars, plan, scale>> /\ WF_<<vars, plan, scale>>(MCNext)

Styles(o) == [a \in 1..Len(plan) |-> StyleOf(o, plan[a])]
ResetStyles == [a \in 1..Len(plan) |-> IF plan[a].o = 5 THEN plan[a].s ELSE IF plan[a].o = 6 THEN PanicStyle(1, 0, 0) ELSE Nop]
Emit == Done => PrintT("SCN " \o ToJson([kind |-> "crud", cfg |-> cfg,
                 styles |-> [C |-> Styles(1), R |-> Styles(2), U |-> Styles(3), D |-> Styles(4), reset |-> ResetStyles]]))
=============================================================================
