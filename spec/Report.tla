------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a textual report says. The state is what remains to be reported:    *)
(* analyses are reported one after the other, each in five steps -- its     *)
(* title, a line for each pass, the time and the space conclusions.         *)
(*   analysis: [name, kind, n1, n2, rep, nz, p: the two passes, tc, sc],     *)
(*             for which n1, n2 and rep are in units of 10^nz                *)
(*   pass: [s, ns: its time; ta * 10^tx: the same, in ns;                   *)
(*          x, y, z: what was in use at most, at least and at the end,      *)
(*          relative to the start, in units of 1024^k bytes (y downwards);  *)
(*          lost: nothing is known about its memory usage]                  *)
(***************************************************************************)
EXTENDS Figures
VARIABLES todo, line
rvars == <<todo, line>>

\* ---- conclusions
Descriptions == <<"Better than O(1)", "O(1)", "Worse than O(1), but better than O(log(n))", "O(log(n))", "Worse than O(log(n)), but better than O(n)", "O(n)",
                  "Worse than O(n), but better than O(n.log(n))", "O(n.log(n))", "Worse than O(n.log(n)), but better than O(n^2)", "O(n^2)",
                  "Worse than O(n^2), but better than O(n^3)", "O(n^3)", "Worse than O(n^3), but better than O(n^4)", "O(n^4)",
                  "Worse than O(n^4), but better than O(k^n)", "O(k^n)", "Worse than O(k^n)">>
ClassRight(c, text) == text = Descriptions[c + 1] \/ (c = 16 /\ text = "Worse than Exponential!!")

\* a * 2^t * 10^d \div n, step by step (for n up to 200 million) -- or `Vast`, when too big
Vast == 100000000
RECURSIVE Quotient(_, _, _, _, _)
Quotient(q, r, t, d, n) ==
  IF q >= Vast THEN Vast
  ELSE IF t > 0 THEN Quotient(2 * q + (2 * r) \div n, (2 * r) % n, t - 1, d, n)
  ELSE IF d > 0 THEN Quotient(10 * q + (10 * r) \div n, (10 * r) % n, t, d - 1, n)
  ELSE q + (IF 2 * r >= n THEN 1 ELSE 0)
Scaled(a, t, d, n) == Quotient(a \div n, a % n, t, d, n)      \* (rounded to the nearest)

Over(a, d) == IF d > 9 THEN 0 ELSE a \div Pow10(d)

\* ---- memory: a * 1024^k / n
Units2 == <<"b", "KiB", "MiB", "GiB">>
GE2(a, k, n, j) ==     \* is it at least 1024^j?
  IF a = 0 THEN FALSE
  ELSE CASE j < k -> n <= 1024 \/ Scaled(a, 10 * (k - j), 0, n) >= 1 [] j = k -> a >= n [] j = k + 1 -> a \div 1024 >= n [] j = k + 2 -> (a \div 1024) \div 1024 >= n [] OTHER -> FALSE
LE2(a, k, n, j) ==     \* ... at most?
  IF a = 0 THEN TRUE
  ELSE IF n > 1024 THEN j >= k + 2 \/ (j < k /\ Scaled(a, 10 * (k - j), 0, n) <= 1) \/ (j = k /\ a <= n) \/ (j = k + 1 /\ (a - 1) \div 1024 < n)
  ELSE CASE j < k -> a = 1 /\ n = 1024 /\ j = k - 1 [] j = k -> a <= n [] j = k + 1 -> (a - 1) \div 1024 < n [] j = k + 2 -> ((a - 1) \div 1024) \div 1024 < n [] OTHER -> TRUE
FigureRight(f, a, k, n) ==
  /\ f.ip >= 0 /\ f.x = -1
  /\ \E j \in 0..3 :
       /\ f.suf = Units2[j + 1]
       \* the largest unit that fits (either one when it is exactly one unit)
       /\ (j = 0 \/ GE2(a, k, n, j)) /\ (j = 3 \/ LE2(a, k, n, j + 1))
       /\ f.fl = 2 \/ (f.fl = 0 /\ j = 0)
       /\ LET m == f.ip * 100 + (IF f.fl = 2 THEN f.fp ELSE 0) IN
          CASE n > 1024 -> \/ j = k /\ Abs(m - Scaled(a, 0, 2, n)) <= 1 + m \div 4194304
                           \/ j = k + 1 /\ Abs(m - (100 * (a \div 1024) + (100 * (a % 1024)) \div 1024) \div n) <= 1
                           \/ j < k /\ Abs(m - Scaled(a, 10 * (k - j), 2, n)) <= 1 + m \div 4194304
                           \/ a = 0 /\ m = 0
            [] j = k     -> Abs(m * n - 100 * a) < n * (1 + m \div 4194304)     \* (single precision)
            [] j = k + 1 -> Abs(m - (100 * (a \div 1024) + (100 * (a % 1024)) \div 1024) \div n) <= 1
            [] j = k + 2 -> Abs(m - (100 * (a \div 1024)) \div (1024 * n)) <= 1
            [] j = k - 1 -> Abs(m * n - 102400 * a) < n
            [] OTHER     -> a = 0 /\ m = 0
Larger(p) == IF p.x >= p.y THEN p.x ELSE p.y
BillionthsOf(p, n) == ((Larger(p) * 1073741) \div n + 5000) \div 10000     \* in hundredths of bytes
SignOf(z) == IF z > 0 THEN "+" ELSE IF z < 0 THEN "-" ELSE ""
\* (lost figures must never look like memory that was released, or not used)
VariationRight(f, p, n) == IF p.lost = 1 THEN f.sign = "+" /\ f.ip # 0 ELSE f.sign = SignOf(p.z) /\ FigureRight(f, Larger(p), p.k, n)
\* ... per element: for thousands of millions (nz = 9), `k` is 3 and 1024^3 / 10^9 = 1.073741824
VariationPerElementRight(f, p, n, nz) ==
  IF nz = 0 \/ p.lost = 1 THEN VariationRight(f, p, n)
  ELSE /\ f.sign = SignOf(p.z) /\ f.ip >= 0 /\ f.x = -1 /\ f.suf = "b" /\ (f.fl = 2 \/ f.fl = 0)
       /\ Abs(f.ip * 100 + (IF f.fl = 2 THEN f.fp ELSE 0) - BillionthsOf(p, n)) <= 1
\* (the passes of an analysis are all in the same unit)
Net(an) == an.p[1].z + an.p[2].z
Auxiliary(an) == LET aux(p) == p.x - (IF p.z > 0 THEN p.z ELSE 0) IN aux(an.p[1]) + aux(an.p[2])

\* ---- times
DurationRight(f, p) == f.sign = "" /\ f.x = -1 /\ Right([kind |-> "duration", unit |-> "", v |-> [b |-> "ns", a |-> p.s, d |-> p.ns, k |-> 0, eps |-> 0]], f)
Exponents == [ns |-> 0, us |-> 3, ms |-> 6, s |-> 9]
\* ta * 10^tx ns / n, with three decimals -- the underlying resolution being of 1 ns
PerElementRight(f, p, n, nz) ==
  /\ f.sign = "" /\ f.ip >= 0 /\ f.fl = 3 /\ f.x = -1 /\ f.suf \in DOMAIN Exponents
  /\ LET e == Exponents[f.suf]  m == f.ip * 1000 + f.fp  d == p.tx - nz - e + 3  tol == IF e = 0 THEN 1500 * n ELSE 2 * n
     IN IF p.ta = 0 THEN m = 0
        ELSE IF n > 1024 THEN Abs(m - (IF d >= 0 THEN Scaled(p.ta, 0, d, n) ELSE (Over(p.ta, -d)) \div n)) <= (IF e = 0 THEN 1500 ELSE 2)
        ELSE IF d >= 0 THEN Abs(m * n - p.ta * Pow10(d)) <= tol ELSE Abs(m * n - Over(p.ta, -d)) <= tol + 1

\* ---- lines
Is(f, n, nz) == f.sign = "" /\ f.ip = n /\ f.z = nz /\ f.fl = 0 /\ f.x = -1 /\ f.suf = ""
KindTexts == [regular |-> "regular-algorithm", constant |-> "constant set iterator-algorithm", resizing |-> "set resizing iterator-algorithm"]
TitleRight(an, name, kind) == name = an.name /\ kind = KindTexts[an.kind]
RowRight(an, i, t) ==
  LET p == an.p[i]  n == IF i = 1 THEN an.n1 ELSE an.n2 IN
  CASE an.kind = "regular"  -> Len(t) = 5 /\ DurationRight(t[1], p) /\ VariationRight(t[2], p, 1) /\ Is(t[3], n, an.nz) /\ VariationPerElementRight(t[4], p, n, an.nz) /\ PerElementRight(t[5], p, n, an.nz)
    [] an.kind = "constant" -> Len(t) = 5 /\ DurationRight(t[1], p) /\ VariationRight(t[2], p, 1) /\ Is(t[3], n, an.nz) /\ Is(t[4], an.rep, an.nz) /\ PerElementRight(t[5], p, an.rep, an.nz)
    [] an.kind = "resizing" -> Len(t) = 4 /\ DurationRight(t[1], p) /\ VariationRight(t[2], p, 1) /\ Is(t[3], n, an.nz) /\ PerElementRight(t[4], p, an.n1, an.nz)
SpaceRight(an, class, what, net, aux) ==
  /\ ClassRight(an.sc, class)
  /\ net.sign = "" /\ aux.sign = ""
  /\ IF \E i \in 1..2 : an.p[i].lost = 1 THEN what = "allocated" /\ net.ip # 0
     ELSE /\ what = (IF Net(an) >= 0 THEN "allocated" ELSE "freed")
          /\ FigureRight(net, Abs(Net(an)), an.p[1].k, 1)
          /\ FigureRight(aux, Auxiliary(an), an.p[1].k, 1)

\* ---- the behaviour
ReportOf(analyses) == todo = analyses /\ line = 0
Title(name, kind)  == Len(todo) > 0 /\ line = 0 /\ TitleRight(todo[1], name, kind) /\ line' = 1 /\ UNCHANGED todo
Row(i, t)          == Len(todo) > 0 /\ line = i /\ RowRight(todo[1], i, t) /\ line' = i + 1 /\ UNCHANGED todo
TimeLine(class)    == Len(todo) > 0 /\ line = 3 /\ ClassRight(todo[1].tc, class) /\ line' = 4 /\ UNCHANGED todo
SpaceLine(class, what, net, aux) == Len(todo) > 0 /\ line = 4 /\ SpaceRight(todo[1], class, what, net, aux) /\ line' = 0 /\ todo' = Tail(todo)
Complete == todo = <<>> /\ line = 0
=============================================================================
