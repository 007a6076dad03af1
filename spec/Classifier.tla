----------------------------- MODULE Classifier -----------------------------
(***************************************************************************)
(* The growth laws of the complexity analysis, in exact integer arithmetic. *)
(*                                                                         *)
(* The 17 classes are numbered as the library orders them: an exact class   *)
(* for law number i (1..8) is 2i-1; "better than law i, worse than law i-1" *)
(* is 2i-2; and 16 is worse than every law.                                 *)
(*   laws: 1 constant, 2 log n, 3 n, 4 n.log n, 5 n^2, 6 n^3, 7 n^4, 8 k^n  *)
(*                                                                         *)
(* Operators return the SET of admissible classes: a singleton, except when *)
(* the measurements lie exactly on the border of two classes (or, for set   *)
(* sizes whose logarithms are irrational, closer to it than the enclosure   *)
(* of the logarithm can tell), where floating point may go either way.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT TOL            \* tolerance, in percent (10 by default; 25 with the library's "tolerance_25_percent")

ExactOf(i) == 2*i - 1
BelowOf(i) == 2*i - 2
WORST == 16

\* ---------------------------------------------------------------- arithmetic
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RECURSIVE PowCap(_,_,_)
PowCap(u, k, cap) == IF k = 0 THEN 1
                     ELSE LET p == PowCap(u, k-1, cap) IN IF u # 0 /\ p > cap \div u THEN cap ELSE p * u

RECURSIVE FloorLog(_)
FloorLog(n) == IF n < 2 THEN 0 ELSE 1 + FloorLog(n \div 2)

\* floor and ceiling of 1000.log2(n) -- equal for powers of two
LogMilli(n) ==
  CASE n < 0 -> <<-1000 * n, -1000 * n>>     \* (sizes too big for TLC, which are powers of two, are represented by -log2 n)
    [] n = 2 -> <<1000,1000>>   [] n = 3 -> <<1584,1585>>   [] n = 4 -> <<2000,2000>>   [] n = 5 -> <<2321,2322>>
    [] n = 6 -> <<2584,2585>>   [] n = 7 -> <<2807,2808>>   [] n = 8 -> <<3000,3000>>   [] n = 9 -> <<3169,3170>>
    [] n = 10 -> <<3321,3322>>  [] n = 12 -> <<3584,3585>>  [] n = 15 -> <<3906,3907>>  [] n = 16 -> <<4000,4000>>
    [] n = 20 -> <<4321,4322>>  [] n = 24 -> <<4584,4585>>  [] n = 30 -> <<4906,4907>>  [] n = 32 -> <<5000,5000>>
    [] n = 36 -> <<5169,5170>>  [] n = 48 -> <<5584,5585>>  [] n = 60 -> <<5906,5907>>  [] n = 64 -> <<6000,6000>>
    [] n = 100 -> <<6643,6644>> [] n = 128 -> <<7000,7000>> [] n = 192 -> <<7584,7585>> [] n = 200 -> <<7643,7644>>
    [] n = 256 -> <<8000,8000>> [] n = 300 -> <<8228,8229>> [] n = 768 -> <<9584,9585>> [] n = 1000 -> <<9965,9966>>
    [] n = 1024 -> <<10000,10000>> [] n = 2000 -> <<10965,10966>> [] n = 3000 -> <<11550,11551>> [] n = 3072 -> <<11584,11585>>
    [] OTHER -> LET k == FloorLog(n) IN <<1000 * k, IF 2^k = n THEN 1000 * k ELSE 1000 * (k + 1)>>
KnownSizes == {2,3,4,5,6,7,8,9,10,12,15,16,20,24,30,32,36,48,60,64,100,128,192,200,256,300,768,1000,1024,2000,3000,3072}

\* A threshold is an enclosure [ln/ld , hn/hd] of the ratio u2/u1 that a law predicts
Exactly(n, d) == LET g == Gcd(n, d) IN [ln |-> n \div g, ld |-> d \div g, hn |-> n \div g, hd |-> d \div g]
Enclosed(ln, ld, hn, hd) == LET a == Gcd(ln, ld)  b == Gcd(hn, hd)
                            IN [ln |-> ln \div a, ld |-> ld \div a, hn |-> hn \div b, hd |-> hd \div b]

\* n2/n1
Quotient(n2, n1) == IF n1 < 0 THEN Exactly(2^(n1 - n2), 1) ELSE Exactly(n2, n1)
LogRatio(n2, n1) == LET a == LogMilli(n2)  b == LogMilli(n1) IN Enclosed(a[1], b[2], a[2], b[1])
LogRatio3(n) == IF n > 0 THEN LogRatio(3 * n, n) ELSE Enclosed(1584 - 1000 * n, -1000 * n, 1585 - 1000 * n, -1000 * n)

Threshold(i, n1, n2) ==
  CASE i = 1 -> Exactly(1, 1)
    [] i = 2 -> LogRatio(n2, n1)
    [] i = 3 -> Quotient(n2, n1)
    [] i = 4 -> LET r == LogRatio(n2, n1)  k == Quotient(n2, n1)
                IN Enclosed(r.ln * k.ln, r.ld * k.ld, r.hn * k.hn, r.hd * k.hd)
    [] i = 5 -> LET k == Quotient(n2, n1) IN Exactly(k.ln * k.ln, k.ld * k.ld)
    [] i = 6 -> LET k == Quotient(n2, n1) IN Exactly(k.ln * k.ln * k.ln, k.ld * k.ld * k.ld)
    [] i = 7 -> LET k == Quotient(n2, n1) IN Exactly(k.ln * k.ln * k.ln * k.ln, k.ld * k.ld * k.ld * k.ld)

Max1(x) == IF x < 1 THEN 1 ELSE x
\* position of u2/u1 relative to percent% of a threshold: -1 below, +1 above, 0 can't tell
Cmp(u1, u2, th, percent) ==
  LET g == Gcd(u1, u2)  v1 == u1 \div g  v2 == u2 \div g
  IN IF v2 \div Max1(v1) > 2 * (th.hn \div th.hd) + 2 THEN 1     \* obviously above -- TLC's integers wouldn't stand the products
     ELSE IF 100 * v2 * th.ld < percent * v1 * th.ln THEN -1
     ELSE IF 100 * v2 * th.hd > percent * v1 * th.hn THEN 1
     ELSE 0

\* ------------------------------------------------- regular & constant set algorithms
\* the exponential law compares u2 with u1^(n2/n1): only for integral n2/n1 (others: both in-between and beyond are admitted)
Cap == 10000000
CmpExp(u1, u2, n1, n2, percent) ==
  LET k == Quotient(n2, n1) IN
  IF k.ld # 1 THEN 0
  ELSE LET p == PowCap(u1, k.ln, Cap)
       IN IF 100 * u2 < percent * p THEN -1 ELSE IF 100 * u2 > percent * p THEN 1 ELSE 0

RECURSIVE Walk(_,_,_,_,_)
Walk(i, u1, u2, n1, n2) ==
  IF i > 8 THEN {WORST}
  ELSE LET c(p) == IF i = 8 THEN CmpExp(u1, u2, n1, n2, p) ELSE Cmp(u1, u2, Threshold(i, n1, n2), p)
           lo == c(100 - TOL)
           hi == c(100 + TOL)
       IN (IF lo <= 0 THEN {BelowOf(i)} ELSE {})
          \cup (IF lo >= 0 /\ hi <= 0 THEN {ExactOf(i)} ELSE {})
          \cup (IF hi >= 0 THEN Walk(i+1, u1, u2, n1, n2) ELSE {})

Regular(u1, u2, n1, n2) ==
  IF u1 = u2 THEN {1}
  ELSE IF u1 = 0 THEN {WORST}
  ELSE Walk(1, u1, u2, n1, n2)

\* memory measurements may have been lost: nothing can be said, then
RegularSpace(u1, u2, n1, n2) == IF u1 < 0 \/ u2 < 0 THEN {WORST} ELSE Regular(u1, u2, n1, n2)

\* ------------------------------------------------------------ set resizing algorithms
\* n elements are added to (or removed from) the set on each pass
SetResizing(u1, u2, n) ==
  IF u1 = u2 THEN {1}
  ELSE IF u2 = 0 THEN {0}
  ELSE IF u1 = 0 THEN {6}
  ELSE
  LET better == LET a == 100 * u1  b == (100 + TOL) * u2 IN IF a > b THEN 1 ELSE IF a = b THEN 0 ELSE -1
      oneLo  == Cmp(u1, u2, Exactly(1,1), 100 - TOL)
      oneHi  == Cmp(u1, u2, Exactly(1,1), 100 + TOL)
      logTh  == LogRatio3(n)
      logAt  == Cmp(u1, u2, logTh, 100)
      logHi  == Cmp(u1, u2, logTh, 100 + TOL)
      linLo  == Cmp(u1, u2, Exactly(3,1), 100 - TOL)
      linHi  == Cmp(u1, u2, Exactly(3,1), 100 + TOL)
      notBetter == better <= 0
      notOne    == oneHi >= 0 \/ oneLo <= 0
      \* below 90% of pass 1 yet not better-than-O(1) beyond tolerance (e.g. 90.91%..): falls in O(1) or just above better
      afterOne  == notBetter /\ notOne
  IN (IF better >= 0 THEN {0} ELSE {})
     \cup (IF notBetter /\ oneLo >= 0 /\ oneHi <= 0 THEN {1} ELSE {})
     \cup (IF afterOne /\ logAt <= 0 THEN {2} ELSE {})
     \cup (IF afterOne /\ logAt >= 0 /\ logHi <= 0 THEN {3} ELSE {})
     \cup (IF afterOne /\ logHi >= 0 /\ linLo <= 0 THEN {4} ELSE {})
     \cup (IF afterOne /\ logHi >= 0 /\ linLo >= 0 /\ linHi <= 0 THEN {5} ELSE {})
     \cup (IF afterOne /\ logHi >= 0 /\ linHi >= 0 THEN {6} ELSE {})
=============================================================================
