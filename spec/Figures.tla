------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* How quantities are presented: units, decimals, scientific notation.      *)
(*                                                                         *)
(* Exact values, in 32 bits integers: a value v is                          *)
(*   b = "p2"  -- a / d * 1024^k                                            *)
(*   b = "hr"  -- a / 360000 (hundredths per hour, in seconds)              *)
(*   b = "p10" -- a * 10^k                                                  *)
(*   b = "ns"  -- a seconds and d nanoseconds                               *)
(* nudged by eps * the least possible amount (which only matters for units). *)
(* A shown text is [ip, fp, fl, x, suf]: ip.fp, with fl fractional digits,  *)
(* times 10^x when in scientific notation (x = -1 otherwise), and a suffix. *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE Digits(_)
Digits(a) == IF a < 10 THEN 1 ELSE 1 + Digits(a \div 10)
Abs(a) == IF a < 0 THEN -a ELSE a

\* ---- is the value at or above a power of 1024, a rate, a power of ten?
Reaches(x, limit, eps) == IF eps < 0 THEN x > limit ELSE x >= limit
AtLeast2(v, j) ==
  IF v.a = 0 THEN FALSE
  ELSE IF v.k - j > 0 THEN TRUE                                  \* d is less than 1024
  ELSE IF v.k = j THEN Reaches(v.a, v.d, v.eps)
  ELSE IF v.k - j = -1 THEN Reaches(v.a, 1024 * v.d, v.eps)
  ELSE IF v.k - j = -2 THEN Reaches(v.a, 1048576 * v.d, v.eps)
  ELSE FALSE
AtLeastHr(v, limit) == Reaches(v.a, limit, v.eps)
AtLeast10(v, e) ==     \* >= 10^e
  IF v.a = 0 THEN FALSE
  ELSE LET o == Digits(v.a) + v.k - 1 - e
       IN o > 0 \/ (o = 0 /\ (v.eps < 0 => v.a # Pow10(Digits(v.a) - 1)))

\* ---- the unit of a value: [suf, dec: decimals, of: what one unit is; -3: scientific]
Names2 == <<"KiB", "MiB", "GiB", "TiB">>
UnitOf2(v, suffix) ==
  LET js == {j \in 1..4 : AtLeast2(v, j)}
      j == CHOOSE x \in js : \A y \in js : y <= x
  IN [suf |-> Names2[j] \o suffix, dec |-> 2, of |-> j]
UnitOfHr(v, name) ==
  IF AtLeastHr(v, 360000) THEN [suf |-> name \o "/s", dec |-> 2, of |-> 3600]
  ELSE IF AtLeastHr(v, 6000) THEN [suf |-> name \o "/min", dec |-> 2, of |-> 60]
  ELSE IF AtLeastHr(v, 100) THEN [suf |-> name \o "/hr", dec |-> 2, of |-> 1]
  ELSE [suf |-> name \o "/s", dec |-> 0, of |-> 360000]
UnitOf10(v, name) ==
  IF AtLeast10(v, 5) THEN [suf |-> name, dec |-> 3, of |-> -3]
  ELSE IF AtLeast10(v, 0) THEN [suf |-> name, dec |-> 2, of |-> 100]
  ELSE [suf |-> name, dec |-> 0, of |-> 1]
UnitOfNs(v) ==
  IF v.a > 0 THEN [suf |-> "s", dec |-> 9, of |-> 9]
  ELSE IF v.d >= 1000000 THEN [suf |-> "ms", dec |-> 6, of |-> 6]
  ELSE IF v.d >= 1000 THEN [suf |-> "us", dec |-> 3, of |-> 3]
  ELSE [suf |-> "ns", dec |-> 0, of |-> 0]
UnitOf(p) ==
  CASE p.v.b = "ns" -> UnitOfNs(p.v)
    [] p.v.b = "hr" -> UnitOfHr(p.v, IF p.kind = "rate" THEN "b" ELSE p.unit)
    [] p.v.b = "p10" -> UnitOf10(p.v, IF p.kind = "customrate" THEN p.unit \o "/s" ELSE p.unit)
    [] p.v.b = "p2" -> IF AtLeast2(p.v, 1) THEN UnitOf2(p.v, IF p.kind = "rate" THEN "/s" ELSE "")
                       ELSE IF p.kind = "bytes" THEN [suf |-> "b", dec |-> 0, of |-> 0]
                       ELSE IF AtLeast2(p.v, 0) THEN [suf |-> "b/s", dec |-> 2, of |-> 0]
                       ELSE IF p.v.a = 0 THEN [suf |-> "b/s", dec |-> 0, of |-> 0]
                       ELSE [suf |-> "b/min", dec |-> 2, of |-> -1]   \* (no binary fraction below 1/60 is considered)

\* ---- the number shown is the nearest one
Nearest(m, q, a) == 2 * Abs(m * q - a) <= q          \* m is a / q, rounded
M(s) == s.ip * Pow10(s.fl) + s.fp
Right(p, s) ==
  LET u == UnitOf(p)  v == p.v IN
  /\ s.ip >= 0
  /\ s.suf = u.suf
  /\ IF v.b # "ns" THEN s.fl = u.dec ELSE s.fl <= u.dec
  /\ (s.x >= 0) <=> (u.of = -3)
  /\ CASE v.b = "p2" /\ u.of = -1 -> Nearest(M(s), v.d, v.a * 6000)
       [] v.b = "p2" /\ u.of # -1 -> IF v.k > u.of THEN Nearest(M(s), v.d, 1024 * v.a * Pow10(u.dec))       \* (a < d, or just below a threshold)
                                     ELSE Nearest(M(s), v.d * (IF v.k = u.of THEN 1 ELSE 1024), v.a * Pow10(u.dec))
       [] v.b = "hr" -> Nearest(M(s), u.of, v.a)
       [] v.b = "ns" -> /\ s.ip = (CASE u.of = 9 -> v.a [] u.of = 6 -> v.d \div 1000000 [] u.of = 3 -> v.d \div 1000 [] OTHER -> v.d)
                        /\ s.fp * Pow10(u.of - s.fl) = (CASE u.of = 9 -> v.d [] u.of = 6 -> v.d % 1000000 [] u.of = 3 -> v.d % 1000 [] OTHER -> 0)
       [] v.b = "p10" /\ u.of = -3 ->
            LET n == Digits(v.a)  e == v.k + n - 1 IN
            /\ s.ip \in 1..9
            /\ IF n <= 4 THEN s.x = e /\ M(s) = v.a * Pow10(4 - n)
               ELSE \/ s.x = e /\ Nearest(M(s), Pow10(n - 4), v.a)
                    \/ s.x = e + 1 /\ M(s) = 1000 /\ Nearest(10000, Pow10(n - 4), v.a)
       [] v.b = "p10" /\ u.of # -3 ->
            LET e == v.k + u.dec IN IF e >= 0 THEN M(s) = v.a * Pow10(e) ELSE Nearest(M(s), Pow10(-e), v.a)
=============================================================================
