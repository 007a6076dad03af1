------------------------------ MODULE MCReport ------------------------------
(* Renders analyses by exact rounding, which must satisfy what is demanded of reports; also generates the analyses to be reported by the code *)
EXTENDS Report, TLC, Json
CONSTANTS Family, Deep
VARIABLES scn
vars == <<rvars, scn>>

T(ta, tx) == [s |-> IF tx >= 9 THEN ta * Pow10(tx - 9) ELSE ta \div Pow10(9 - tx), ns |-> IF tx >= 9 THEN 0 ELSE (ta % Pow10(9 - tx)) * Pow10(tx), ta |-> ta, tx |-> tx]
Ts == <<T(0, 0), T(1, 0), T(7, 0), T(999, 0), T(1000, 0), T(1001, 0), T(123456, 1), T(5, 6), T(999999, 3), T(1, 9), T(60, 9), T(3600, 9), T(12345678, 3), T(100, 0), T(16, 3), T(333333, 0), T(1, 6), T(7777777, 6)>>
Sp(x, y, z) == [x |-> x, y |-> y, z |-> z]
Sps == <<Sp(0,0,0), Sp(1,0,0), Sp(1,0,1), Sp(1023,0,1023), Sp(1024,0,1), Sp(1025,0,1025), Sp(0,1,-1), Sp(0,1024,-1024), Sp(0,1025,-3), Sp(5,7,-7), Sp(7,5,2), Sp(100,0,33),
         Sp(0,100,0), Sp(999999,1,-1), Sp(10,10,0), Sp(1000000,3,999999), Sp(1048577,0,0), Sp(1023,1,0), Sp(512,511,1), Sp(5,7,3), Sp(3,0,0), Sp(2,900,-900), Sp(40,0,39), Sp(0,5000,-5000), Sp(3000,9000,-8999)>>
Pass(t, sp, k) == [s |-> t.s, ns |-> t.ns, ta |-> t.ta, tx |-> t.tx, x |-> sp.x, y |-> sp.y, z |-> sp.z, k |-> k, lost |-> 0]
PassOf(i, j, k) == Pass(Ts[(i % Len(Ts)) + 1], Sps[(j % Len(Sps)) + 1], k)
An(name, kind, n1, n2, rep, p1, p2, tc, sc) == [name |-> name, kind |-> kind, n1 |-> n1, n2 |-> n2, rep |-> rep, nz |-> 0, p |-> <<p1, p2>>, tc |-> tc, sc |-> sc]
Kinds == {"regular", "constant", "resizing"}
Sizes == IF Deep THEN {1, 2, 3, 5, 7, 10, 15, 16} ELSE {1, 3, 16}
Built(an, base) == [kind |-> "report", via |-> "built", an |-> <<an>>, base |-> base]
Classes == {Built(An("sort it", k, 3, IF k = "resizing" THEN 6 ELSE 7, 5, PassOf(tc, sc, 1), PassOf(tc + 3, sc + 5, 1), tc, sc), 1) : k \in Kinds, tc \in 0..16, sc \in 0..16}
Mod(a, b) == a % b
Figures0 == {Built(An("a", k, n, IF k = "resizing" THEN 2 * n ELSE n + c, Mod(n * 7, 15) + 1, PassOf(i + c, i, u), PassOf(5 * i + n, 5 * i + c, u), Mod(i + c, 17), Mod(i + n, 17)), Mod(i + c, 3))
             : k \in Kinds, n \in Sizes, u \in 0..3, i \in 0..(Len(Sps) * (IF Deep THEN Len(Ts) ELSE 1) - 1), c \in (IF Deep THEN {0, 1, 2, 3, 7, 11} ELSE {1, 7})}
Losing(p, lost) == [p EXCEPT !.lost = lost]
Lost == {Built(An("a", k, 3, IF k = "resizing" THEN 6 ELSE 5, 4, Losing(PassOf(i, i, u), w % 2), Losing(PassOf(2 * i, 3 * i, u), w \div 2), 5, 16), 1) : k \in Kinds, u \in {0, 2}, i \in 0..(Len(Sps) - 1), w \in 1..3}
\* many elements
Vastly(an, nz) == [an EXCEPT !.nz = nz]
BigSizes == {1025, 65535, 65536, 65537, 100000, 16777217, 100000000}
Many == {Built(An("many", k, n, IF k = "resizing" THEN 2 * n ELSE n + c, n \div 2 + c, PassOf(i + c, i, u), PassOf(i + 7 * c, 3 * i + c, u), Mod(i + c, 17), Mod(i + u, 17)), Mod(i, 3))
             : k \in Kinds, n \in BigSizes, u \in 0..3, i \in 0..(Len(Sps) - 1), c \in (IF Deep THEN 1..5 ELSE {1})}
        \cup {Built(Vastly(An("many", k, n, IF k = "resizing" THEN 2 * n ELSE n + 1, n + 2, PassOf(i, j, 3), PassOf(i + 5, j + 1, 3), Mod(i, 17), Mod(j, 17)), 9), Mod(i, 3))
             : k \in Kinds, n \in {1, 2}, i \in 0..(Len(Ts) - 1), j \in {1, 2, 9, 10, 11, 19, 20}}
\* from executions (for which 1 KiB or more is what's used by the closures themselves)
AllRuns == {[kind |-> "report", via |-> v, base |-> 0,
          an |-> <<An("scripted", "regular", n, n * m, 1, PassOf(i, j, 2), PassOf(i + m, 3 * j + n, 2), 0, 0)>>]
         : v \in {"std", "async"}, n \in {2, 16}, m \in {2, 3, 5}, i \in {0, 2, 5, 8, 9, 13}, j \in {0, 1, 2, 4, 6, 8, 9, 10, 11, 14, 19, 20, 22}}
Affordable(s) == \A i \in 1..2 : s.an[1].p[i].x <= 1100 /\ s.an[1].p[i].y <= 1100
Runs == {s \in AllRuns : Affordable(s)}
Cruds == {[kind |-> "report", via |-> "crud", n |-> <<a, b, c, d>>, th |-> <<th, th, 1, th>>, w |-> w, t |-> t, m |-> m]
          : a \in {0, 4}, b \in {0, 3}, c \in {0, 9}, d \in {0, 5}, th \in {0, 1, 2}, w \in {0, 50}, t \in {0, 7, 1234567, 2000000000}, m \in {0, 3000}}
      \cup (IF Deep THEN {[kind |-> "report", via |-> "crud", n |-> <<a, b, c, d>>, th |-> <<th, 1, th, 2>>, w |-> w, t |-> t, m |-> m]
          : a, b, c, d \in {0, 7, 16}, th \in {1, 3}, w \in {0, 50}, t \in {1, 55555}, m \in {1, 70000}} ELSE {})

\* ---- rendering
RoundDiv(a, q) == (2 * a + q) \div (2 * q)
Fig(m, dec, suf, sign) == [sign |-> sign, ip |-> m \div Pow10(dec), fp |-> m % Pow10(dec), fl |-> dec, x |-> -1, suf |-> suf, z |-> 0]
Mem(a, k, n, sign) ==
  LET j == IF a = 0 THEN 0 ELSE CHOOSE j \in 0..3 : (j = 0 \/ GE2(a, k, n, j)) /\ \A h \in j+1..3 : ~GE2(a, k, n, h)
      m == CASE a = 0 -> 0 [] n > 1024 /\ j <= k -> Scaled(a, 10 * (k - j), 2, n) [] j = k -> RoundDiv(100 * a, n) [] j = k + 1 -> (100 * (a \div 1024) + (100 * (a % 1024)) \div 1024) \div n
             [] j = k + 2 -> (100 * (a \div 1024)) \div (1024 * n) [] j = k - 1 -> RoundDiv(102400 * a, n)
  IN Fig(m, 2, Units2[j + 1], sign)
LostFigure == [sign |-> "+", ip |-> -1, fp |-> 0, fl |-> 0, x |-> -1, suf |-> "?", z |-> 0]
MemOf(p, n) == IF p.lost = 1 THEN LostFigure ELSE Mem(Larger(p), p.k, n, SignOf(p.z))
Time(p) == LET u == UnitOfNs([a |-> p.s, d |-> p.ns])  q == Pow10(u.of) IN
           [sign |-> "", ip |-> IF u.of = 9 THEN p.s ELSE p.ns \div q, fp |-> IF u.of = 9 THEN p.ns ELSE p.ns % q, fl |-> u.of, x |-> -1, suf |-> u.suf, z |-> 0]
MemOver(p, n, nz) == IF nz = 0 \/ p.lost = 1 THEN MemOf(p, n) ELSE Fig(BillionthsOf(p, n), 2, "b", SignOf(p.z))
PerElement(p0, n, nz) ==
  LET p == [p0 EXCEPT !.tx = @ - nz]
      fits(e) == LET d == p.tx - e IN IF n > 1024 THEN (IF d >= 0 THEN Scaled(2 * p.ta, 0, d, n) > 1 ELSE Over(p.ta, -d) >= n) ELSE IF d > 3 THEN p.ta > 0 ELSE IF d >= 0 THEN p.ta * Pow10(d) >= n ELSE Over(p.ta, -d) >= n
      e == IF fits(9) THEN 9 ELSE IF fits(6) THEN 6 ELSE IF fits(3) THEN 3 ELSE 0
      d == p.tx - e + 3
      m == IF n > 1024 \/ nz > 0 THEN (IF d >= 0 THEN Scaled(p.ta, 0, d, n) ELSE (Over(p.ta, -d)) \div n) ELSE IF e = 0 THEN 1000 * RoundDiv(p.ta * Pow10(p.tx), n) ELSE IF d >= 0 THEN RoundDiv(p.ta * Pow10(d), n) ELSE RoundDiv(p.ta, n * Pow10(-d))
  IN Fig(m, 3, CASE e = 9 -> "s" [] e = 6 -> "ms" [] e = 3 -> "us" [] e = 0 -> "ns", "")
Num(n, nz) == [Fig(n, 0, "", "") EXCEPT !.z = nz]
RenderRow(an, i) ==
  LET p == an.p[i]  n == IF i = 1 THEN an.n1 ELSE an.n2  dt == Time(p)  ds == MemOf(p, 1) IN
  CASE an.kind = "regular" -> <<dt, ds, Num(n, an.nz), MemOver(p, n, an.nz), PerElement(p, n, an.nz)>>
    [] an.kind = "constant" -> <<dt, ds, Num(n, an.nz), Num(an.rep, an.nz), PerElement(p, an.rep, an.nz)>>
    [] an.kind = "resizing" -> <<dt, ds, Num(n, an.nz), PerElement(p, an.n1, an.nz)>>
MCInit == /\ scn \in (CASE Family = "classes" -> Classes [] Family = "figures" -> Figures0 [] Family = "many" -> Many [] Family = "lost" -> Lost [] Family = "runs" -> Runs [] Family = "crud" -> Cruds)
          /\ ReportOf(IF scn.via = "crud" THEN <<>> ELSE scn.an)
An1 == todo[1]
AnyLost == \E i \in 1..2 : An1.p[i].lost = 1
MCNext == /\ UNCHANGED scn
          /\ \/ Len(todo) > 0 /\ Title(An1.name, KindTexts[An1.kind])
             \/ \E i \in 1..2 : Len(todo) > 0 /\ Row(i, RenderRow(An1, i))
             \/ Len(todo) > 0 /\ TimeLine(Descriptions[An1.tc + 1])
             \/ Len(todo) > 0 /\ SpaceLine(Descriptions[An1.sc + 1], IF AnyLost \/ Net(An1) >= 0 THEN "allocated" ELSE "freed", IF AnyLost THEN [LostFigure EXCEPT !.sign = ""] ELSE Mem(Abs(Net(An1)), An1.p[1].k, 1, ""), Mem(Auxiliary(An1), An1.p[1].k, 1, ""))
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Reported == <>Complete
DistinctDescriptions == \A i, j \in 1..Len(Descriptions) : Descriptions[i] = Descriptions[j] => i = j
Emit == line = 0 => ((todo # <<>> \/ Family = "crud") => PrintT("SCN " \o ToJson(scn)))
=============================================================================
