----------------------------- MODULE MCClassifier -----------------------------
(***************************************************************************)
(* The laws themselves: total, monotonic and -- but for the borders --       *)
(* deterministic; walked along series of measurements of increasing badness *)
(* that go through both sides of every border. The series are replayed on   *)
(* every entry point of the analysis functions.                             *)
(***************************************************************************)
EXTENDS Classifier, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Family,     \* "regular": growing u2; "shrink": shrinking u1; "resizing", "resizingshrink"
          Deep
VARIABLES ser, i

Sizes == {<<2, 3>>, <<2, 4>>, <<2, 20>>, <<3, 9>>, <<4, 8>>, <<8, 12>>, <<10, 20>>, <<10, 100>>, <<100, 200>>, <<64, 192>>, <<100, 300>>, <<1000, 2000>>,
          <<1024, 3072>>, <<1048576, 2097152>>, <<536870912, 1073741824>>, <<-30, -31>>, <<-29, -31>>}
         \cup (IF Deep THEN {<<a, b>> : a \in {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20}, b \in {16, 24, 32, 36, 48, 60, 64}} \cup {<<5, 100>>, <<9, 10>>, <<16, 1048576>>} ELSE {})
Pow2(n) == n < 0 \/ 2^FloorLog(n) = n
Times(n) == LET q == Quotient(n[2], n[1]) IN q.ln \div q.ld
Smalls == IF Deep THEN {1, 2, 3, 5, 7, 10, 11, 19, 20, 33, 50, 99, 100} ELSE {1, 2, 3, 10, 33, 100}
Firsts(n) == IF Pow2(n[1]) /\ Pow2(n[2]) /\ Times(n) <= 4 THEN Smalls \cup {1000} ELSE Smalls
Ns == {2, 3, 4, 5, 10, 16, 20, 64, 100, 256, 1000, 1024, 1048576, 536870912 \div 4, -31, -30} \cup (IF Deep THEN {6, 7, 8, 9, 12, 15, 24, 30, 32, 36, 48, 128, 200, 300} ELSE {})

Percents == {100 - TOL, 100, 100 + TOL}
Near(x) == {y \in {x - 1, x, x + 1, x + 2} : y >= 0}
Scaled(u, th, p) == LET q == th.ln \div th.ld  r == th.ln % th.ld IN (u * p * q) \div 100 + (u * p * r) \div (100 * th.ld)
Usable(n, k) == LET r == Times(n) IN ~(r > 10 /\ k > 5) /\ ~(r > 100 /\ k > 4)
ExpPoints(u, n) == LET p == IF Quotient(n[2], n[1]).ld = 1 THEN PowCap(u, Times(n), Cap) ELSE Cap
                   IN IF p >= Cap THEN {Cap \div 2} ELSE UNION {Near((p \div 100) * q + ((p % 100) * q) \div 100) : q \in Percents} \cup {Cap \div 2}
U2Points(u, n) == {0, 1, u} \cup UNION {Near(Scaled(u, Threshold(k, n[1], n[2]), p)) : k \in {x \in 1..7 : Usable(n, x)}, p \in Percents} \cup ExpPoints(u, n)
\* shrinking u1 while u2 stays: the ratios of the borders, from the other side
U1Points(u2, n) == {0, 1, 2, 3, u2, 2 * u2, u2 + 1} \cup UNION {Near((u2 * 100) \div Max1((p * Threshold(k, n[1], n[2]).ln) \div Threshold(k, n[1], n[2]).ld)) : k \in {x \in 1..7 : Usable(n, x)}, p \in Percents}
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Desc(S) == SetToSortSeq(S, LAMBDA a, b : a > b)

RzBorders(n) == {Exactly(1, 1), LogRatio3(n), Exactly(3, 1)}
RzU2(u, n) == {0, 1, u, 4 * u, 100 * u, (100 * u) \div (100 + TOL), (100 * u) \div (100 + TOL) + 1} \cup UNION {Near(Scaled(u, b, p)) : b \in RzBorders(n), p \in Percents}
RzU1(u, n) == {0, 1, u, 2 * u} \cup Near((u * (100 + TOL)) \div 100) \cup UNION {Near((u * 100) \div Max1((p * b.ln) \div b.ld)) : b \in RzBorders(n), p \in Percents}

Series ==
  CASE Family = "regular" -> {[kind |-> "regular", n1 |-> n[1], n2 |-> n[2], pts |-> [k \in 1..Cardinality(U2Points(u, n)) |-> <<u, Asc(U2Points(u, n))[k]>>]]
                              : n \in Sizes, u \in Smalls \cup {1000}}
    [] Family = "shrink"  -> {[kind |-> "regular", n1 |-> n[1], n2 |-> n[2], pts |-> [k \in 1..Cardinality(U1Points(u, n)) |-> <<Desc(U1Points(u, n))[k], u>>]]
                              : n \in {x \in Sizes : Times(x) <= 4}, u \in {1, 10, 60}}
    [] Family = "resizing" -> {[kind |-> "resizing", n1 |-> n, n2 |-> n, pts |-> [k \in 1..Cardinality(RzU2(u, n)) |-> <<u, Asc(RzU2(u, n))[k]>>]]
                              : n \in Ns, u \in Smalls}
    [] Family = "resizingshrink" -> {[kind |-> "resizing", n1 |-> n, n2 |-> n, pts |-> [k \in 1..Cardinality(RzU1(u, n)) |-> <<Desc(RzU1(u, n))[k], u>>]]
                              : n \in Ns, u \in {1, 10, 100}}

Allowed(s, p) == IF s.kind = "regular" THEN Regular(p[1], p[2], s.n1, s.n2) ELSE SetResizing(p[1], p[2], s.n1)

MCInit == /\ ser \in {s \in Series : s.kind = "resizing" \/ s.pts[1][1] \in Firsts(<<s.n1, s.n2>>) \/ Family = "shrink"} /\ i = 1
MCNext == i < Len(ser.pts) /\ i' = i + 1 /\ UNCHANGED ser
MCSpec == MCInit /\ [][MCNext]_<<ser, i>> /\ WF_<<ser, i>>(MCNext)

A == Allowed(ser, ser.pts[i])
Total == A # {} /\ A \subseteq 0..16
EqualIsO1 == ser.pts[i][1] = ser.pts[i][2] => A = {1}
\* some class may be picked at each point such that the series never gets better
Monotonic == i > 1 => LET B == Allowed(ser, ser.pts[i-1]) IN Max(A) >= Max(B) /\ Min(A) >= Min(B)
\* exact classes hold for what follows the laws exactly
Emit == i = Len(ser.pts) => PrintT("SCN " \o ToJson(ser))
=============================================================================
