------------------------------ MODULE MCUnits ------------------------------
(***************************************************************************)
(* The design of the presentations: tables of scales, built once for each   *)
(* kind and unit, given to the presentable when created and used whenever   *)
(* it is shown -- by exact rounding. Also generates what to present:        *)
(* values, one by one, and histories of everything being created and shown. *)
(***************************************************************************)
EXTENDS Units, FiniteSets, TLC, Json
CONSTANTS Family, Deep, MaxItems
VARIABLES tables,   \* what each table is about: sequence of <<kind, unit>>
          uses,     \* per item, the table it was given
          ops       \* what was done so far
vars == <<presented, tables, uses, ops>>

V(b, a, d, k, e) == [b |-> b, a |-> a, d |-> d, k |-> k, eps |-> e]
As2 == {0, 1, 2, 3, 5, 9, 10, 33, 99, 100, 101, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 1536, 2047, 4096, 10393, 99999, 524288, 1048575}
       \cup (IF Deep THEN 0..1100 ELSE {})
P2 == {V("p2", a, d, k, 0) : a \in As2, d \in {1, 2, 8}, k \in 0..4}
ThP2 == {V("p2", a, 1, k, e) : a \in {1, 1024}, k \in 0..4, e \in {-1, 1}}
Hr == {V("hr", a, 1, 0, 0) : a \in (IF Deep THEN 0..6400
                                    ELSE {0, 1, 49, 50, 51, 98, 99, 100, 101, 149, 150, 1234, 3960, 5999, 6000, 6001, 6029, 6030, 6031, 6090, 9999, 12345, 60000})
                                   \cup {331560, 359969, 359970, 359999, 360000, 360001, 361800, 363600, 3654000, 3655800, 12345678}}
ThHr == {V("hr", a, 1, 0, e) : a \in {100, 6000, 360000}, e \in {-1, 1}}
As10 == {0, 1, 2, 5, 9, 10, 12, 15, 49, 50, 51, 99, 101, 105, 123, 499, 500, 501, 999, 1015, 1234, 4999, 5001, 9994, 9995, 9999, 10005, 10015, 12345, 99949, 99950, 99994, 99995, 99999,
         100001, 103936, 123449, 123450, 123451, 999499, 999500, 999949, 999999, 1064304, 9999499, 9999500, 108984795}
        \cup (IF Deep THEN 1..1200 \cup {9000 + 7 * i : i \in 1..150} \cup {99500 + 3 * i : i \in 1..200} ELSE {})
P10 == {V("p10", a, 1, k, 0) : a \in As10 \ {0}, k \in -8..12} \cup {V("p10", 0, 1, 0, 0)}
ThP10 == {V("p10", 1, 1, k, e) : k \in {0, 5}, e \in {-1, 1}}
Ns == {V("ns", a, d, 0, 0) : a \in {0, 1, 9, 59, 60, 61, 3599, 3600, 86400, 1000000, 8388607},
                             d \in {0, 1, 9, 10, 99, 999, 1000, 1001, 1500, 9999, 10000, 123456, 999999, 1000000, 1000001, 1234567, 12345678, 120000000, 123456789, 500000000, 999999999}}
Item(kind, unit, v) == [kind |-> kind, unit |-> unit, v |-> v]
Names == {"req", "re", "b", "b/s", "", " b"}
Mixed == {Item("bytes", "", V("p2", 10393, 1, 1, 0)), Item("rate", "", V("p2", 10393, 8, 2, 0)), Item("rate", "", V("hr", 3960, 1, 0, 0)), Item("duration", "", V("ns", 0, 1500, 0, 0))}
    \cup {Item("custom", n, V("p10", 1015, 1, -2, 0)) : n \in Names} \cup {Item("customrate", n, V("hr", 331560, 1, 0, 0)) : n \in Names}
LongNames == {"u" \o ToString(i) : i \in 1..40} \cup Names \cup {"requests", "requests granted", "requests refused", "transactions/committed", "transactions/rolled back", "Req", "kB", "%", " ms", "ms", "ms ", "MS", "\t", " ", "m", "M"}
Long == {Item("custom", n, V("p10", a, 1, k, 0)) : n \in LongNames, a \in {1015, 12345}, k \in {-2, 4}}
   \cup {Item("customrate", n, V("hr", a, 1, 0, 0)) : n \in LongNames, a \in {331560, 3960, 0, 12345678}} \cup Mixed
Items == IF Family = "mixed" THEN Mixed ELSE Long

\* ---- the design: exact rounding, by the table of the item
RoundDiv(a, q) == (2 * a + q) \div (2 * q)
Fixed(m, dec, suf) == [ip |-> m \div Pow10(dec), fp |-> m % Pow10(dec), fl |-> dec, x |-> -1, suf |-> suf]
Render(p) ==
  LET u == UnitOf(p)  v == p.v IN
  CASE v.b = "p2" /\ u.of = -1 -> Fixed(RoundDiv(v.a * 6000, v.d), u.dec, u.suf)
    [] v.b = "p2" /\ u.of # -1 -> Fixed(RoundDiv(v.a * (IF v.k > u.of THEN 1024 ELSE 1) * Pow10(u.dec), v.d * (IF v.k >= u.of THEN 1 ELSE 1024)), u.dec, u.suf)
    [] v.b = "hr" -> Fixed(RoundDiv(v.a, u.of), u.dec, u.suf)
    [] v.b = "ns" -> LET q == Pow10(u.of) IN
                     IF u.of = 9 THEN [ip |-> v.a, fp |-> v.d, fl |-> 9, x |-> -1, suf |-> u.suf]
                     ELSE [ip |-> v.d \div q, fp |-> v.d % q, fl |-> u.of, x |-> -1, suf |-> u.suf]
    [] v.b = "p10" /\ u.of # -3 -> LET e == v.k + u.dec IN Fixed(IF e >= 0 THEN v.a * Pow10(e) ELSE RoundDiv(v.a, Pow10(-e)), u.dec, u.suf)
    [] v.b = "p10" /\ u.of = -3 ->
         LET n == Digits(v.a)  m == IF n <= 4 THEN v.a * Pow10(4 - n) ELSE RoundDiv(v.a, Pow10(n - 4))
             mm == IF m = 10000 THEN 1000 ELSE m
         IN [ip |-> mm \div 1000, fp |-> mm % 1000, fl |-> 3, x |-> v.k + n - 1 + (IF m = 10000 THEN 1 ELSE 0), suf |-> u.suf]

Key(kind, unit) == <<kind, unit>>
TableOf(t, key) == CHOOSE i \in 1..Len(t) : t[i] = key
MCInit == ShownStart /\ tables = <<>> /\ uses = <<>> /\ ops = <<>>
New(i) == /\ Create(i.kind, i.unit, i.v)
          /\ tables' = (IF \E k \in 1..Len(tables) : tables[k] = Key(i.kind, i.unit) THEN tables ELSE Append(tables, Key(i.kind, i.unit)))
          /\ uses' = Append(uses, TableOf(tables', Key(i.kind, i.unit)))
          \* ... and everything is shown again, the latest first (in the long ones, the latest, the first and one in the middle)
          /\ LET n == Len(presented) + 1
                 shows == IF Family = "long" THEN <<n, 1, n \div 2 + 1>> ELSE [k \in 1..n |-> n + 1 - k]
             IN ops' = ops \o <<[o |-> "new", kind |-> i.kind, unit |-> i.unit, v |-> i.v]>> \o [k \in 1..Len(shows) |-> [o |-> "show", h |-> shows[k]]]
Each(kind, unit, S) == \E v \in S : New(Item(kind, unit, v))
NewSingle ==     \* (a disjunction instead of an union, which takes too long)
  \/ Each("bytes", "", P2) \/ Each("bytes", "", ThP2)
  \/ Each("rate", "", {x \in P2 : x.a = 0 \/ x.k > 0 \/ 60 * x.a >= x.d}) \/ Each("rate", "", {x \in ThP2 : x.k > 0 \/ x.a > 1}) \/ Each("rate", "", Hr) \/ Each("rate", "", ThHr)
  \/ Each("custom", "req", P10) \/ Each("custom", "req", ThP10)
  \/ Each("customrate", "req", {x \in P10 : x.a = 0 \/ AtLeast10(x, 0)}) \/ Each("customrate", "req", {x \in ThP10 : x.k > 0})
  \/ Each("customrate", "req", Hr) \/ Each("customrate", "req", ThHr)
  \/ Each("duration", "", Ns)
MCNext == /\ Len(presented) < MaxItems
          /\ IF Family = "single" THEN NewSingle ELSE \E i \in (IF Family = "long" THEN {RandomElement(Items)} ELSE Items) : New(i)
MCSpec == MCInit /\ [][MCNext]_vars

\* what is shown, through the table given at creation
Shown(h) == LET p == presented[h]  t == tables[uses[h]] IN Render([kind |-> t[1], unit |-> t[2], v |-> p.v])
AllRight == \A h \in 1..Len(presented) : Right(presented[h], Shown(h))
\* no larger unit fits, the one used does (but for what's below the least unit)
UnitValue == [b |-> 0, KiB |-> 1, MiB |-> 2, GiB |-> 3, TiB |-> 4]
LargestThatFits == \A h \in 1..Len(presented) : LET p == presented[h] IN
     p.kind = "bytes" => LET u == UnitOf(p).suf IN (\A x \in DOMAIN UnitValue : AtLeast2(p.v, UnitValue[x]) => UnitValue[x] <= UnitValue[u])
                                                 /\ (u # "b" => AtLeast2(p.v, UnitValue[u]))
OneTableEach == \A i, j \in 1..Len(tables) : tables[i] = tables[j] => i = j
Emit == Len(presented) = MaxItems => PrintT("SCN " \o ToJson([kind |-> "units", ops |-> ops]))
=============================================================================
