----------------------------- MODULE MCAllocator -----------------------------
(* Sequences of operations, to be replayed on the code *)
EXTENDS Allocator, TLC, Json, FiniteSets
CONSTANTS Family, Depth
VARIABLES hist, levels     \* levels: memory usage over time, with the moments save points were taken -- the extremes, by definition

vars == <<avars, hist, levels>>
Op(o, b, n, al, s) == [o |-> o, b |-> b, n |-> n, al |-> al, s |-> s]

Capacities == CASE Family = "extremes" -> {1, 2, 3, 4} [] Family \in {"long", "huge"} -> {1, 2, 3, 4, 8} [] OTHER -> {4}
MaxLive == IF Family = "long" THEN 6 ELSE 3
Newest == CHOOSE b \in Live : \A c \in Live : b >= c
Oldest == CHOOSE b \in Live : \A c \in Live : b <= c
Some == IF Live = {} THEN {} ELSE IF Family \in {"long", "huge"} THEN Live ELSE {Newest, Oldest}

AllocSizes == CASE Family = "ops" -> {<<1, 0>>, <<100, 4>>, <<5000, 12>>} [] Family = "extremes" -> {<<10, 3>>, <<1000, 3>>} [] Family = "huge" -> {<<1, 3>>, <<3000, 3>>, <<4097, 4>>, <<5120, 0>>}
                [] OTHER -> {<<7, 0>>, <<64, 3>>, <<4096, 6>>, <<30000, 12>>, <<2000, 16>>, <<300000, 21>>}
ReSizes(n) == IF Family = "ops" THEN {1, n, n + 500, 20000} ELSE IF Family = "huge" THEN {1, n, 4095, 6000} ELSE {1, n, IF n < 9000 THEN 3 * n ELSE 5, 777}
MCInit == (\E c \in Capacities : StartWith(c)) /\ hist = <<>> /\ levels = <<0>>

Do(op) == hist' = Append(hist, op)
NewLevel == levels' = Append(levels, used')
Mem == \/ \E x \in AllocSizes : Cardinality(Live) < MaxLive /\ Alloc(x[1]) /\ Do(Op("alloc", 0, x[1], x[2], 0)) /\ NewLevel
       \/ \E b \in Some : Free(b) /\ Do(Op("free", b, 0, 0, 0)) /\ NewLevel
Other == \/ \E x \in AllocSizes : (Family = "ops" => x[1] < 5000) /\ Cardinality(Live) < MaxLive /\ ZAlloc(x[1]) /\ Do(Op("zalloc", 0, x[1], x[2], 0)) /\ NewLevel
         \/ \E b \in Some : \E n \in ReSizes(size[b]) : Realloc(b, n) /\ Do(Op("realloc", b, n, 0, 0)) /\ NewLevel
         \/ Refused /\ (\E o \in {"alloc", "zalloc"} : Do(Op(o, 0, Huge, 3, 0))) /\ UNCHANGED levels
         \/ \E b \in Some : Refused /\ Do(Op("realloc", b, Huge, 0, 0)) /\ UNCHANGED levels
SavePoint == Save /\ Do(Op("save", 0, 0, 0, 0)) /\ UNCHANGED levels
Query == \E s \in 1..Len(saves) : UNCHANGED avars /\ Do(Op("query", 0, 0, 0, s)) /\ UNCHANGED levels
MCNext == /\ Len(hist) < Depth
          /\ \/ Mem
             \/ Family # "extremes" /\ Other
             \/ (Family = "ops" => Len(saves) < 1) /\ SavePoint
             \/ Family \in {"long", "huge"} /\ Query
MCSpec == MCInit /\ [][MCNext]_vars

\* the extremes, from the definition
RECURSIVE Replay(_, _, _, _)
Replay(i, lv, k, acc) ==      \* acc: per save point, the position in levels when it was taken
  IF i > Len(hist) THEN acc
  ELSE LET op == hist[i]
           moves == op.n # Huge /\ op.o \in {"alloc", "zalloc", "free", "realloc"}
       IN Replay(i + 1, IF moves THEN lv + 1 ELSE lv, k, IF op.o = "save" THEN Append(acc, lv) ELSE acc)
ExtremesByDefinition == Family \notin {"long", "huge"} \/ Len(hist) = Depth =>
  LET at == Replay(1, 1, 0, <<>>)
  IN \A s \in 1..Len(saves) : /\ \A i \in at[s]..Len(levels) : saves[s].lo <= levels[i] /\ saves[s].hi >= levels[i]
                              /\ \E i \in at[s]..Len(levels) : saves[s].lo = levels[i]
                              /\ \E i \in at[s]..Len(levels) : saves[s].hi = levels[i]
Emit == Len(hist) = Depth /\ (Family = "ops" \/ saves # <<>>) => PrintT("SCN " \o ToJson([kind |-> "alloc", capacity |-> capacity, unit |-> IF Family = "huge" THEN 1048576 ELSE 1, auto |-> IF Family \in {"long", "huge"} THEN 0 ELSE IF Family = "ops" THEN 1 ELSE 2, ops |-> hist]))
=============================================================================
