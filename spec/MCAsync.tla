------------------------------- MODULE MCAsync -------------------------------
(* Model checking configurations of AsyncRunner, which are also the source of the scenarios replayed on the code *)
EXTENDS AsyncRunner, TLC, Json

CONSTANTS Family,
          Deep      \* more combinations
VARIABLES hist, token

U1 == 1000
U2 == <<500, 1000, 1225, 1500, 1725, 2000, 2450, 3000, 3450, 4000, 6000, 8000, 12000, 16000, 500000, 1000000, 2000000>>
Mod(a, b) == a % b
U2For(c) == U2[c + 1]
Around(c) == {c - 1, c, c + 1, 16} \cap 0..16

T(n) == [o |-> "time", n |-> n]
K(n) == [o |-> "keep", n |-> n]
M(n) == [o |-> "tmp", n |-> n]
F == [o |-> "free", n |-> 0]
W == [o |-> "wait", n |-> 0]
P == [o |-> "panic", n |-> 0]
S(n) == [o |-> "save", n |-> n]
Saving == {<<W, S(1), W>>, <<S(1024)>>, <<S(1025), W>>, <<S(500), W, K(10), S(700), F>>, <<S(3000)>>}

Cfg(r, w, a1, a2, re, tl, sl) == [reset |-> r, warmup |-> w, assert1 |-> a1, assert2 |-> a2, retries |-> re, tl |-> tl, sl |-> sl, al |-> -1, cl |-> -1,
                                  n1 |-> 4, n2 |-> 8, flip |-> 0]
B == {0, 1}

Cfgs ==
  CASE Family = "stages" -> {[Cfg(r, w, a1, a2, re, tl, -1) EXCEPT !.flip = f] : r \in B, w \in B, a1 \in B, a2 \in B, re \in {-1, 0, 2}, tl \in {-1, 5}, f \in B}
    [] Family = "equal" -> {[Cfg(r, w, 1, 1, -1, -1, -1) EXCEPT !.flip = f, !.n1 = n, !.n2 = n] : r \in B, w \in B, f \in B, n \in {2, 4, 100, 65536}}     \* sets of the same size
    [] Family = "time"   -> {Cfg(1, 0, 0, 0, re, tl, sl) : re \in {-1, 0, 1, 3}, tl \in -1..16, sl \in {-1, 16}}
    [] Family = "space"  -> {Cfg(0, 0, 0, 0, re, tl, sl) : re \in {-1, 2}, tl \in {-1, 16}, sl \in -1..16}
    [] Family = "both"   -> {[Cfg(r, 0, 0, 0, re, tl, sl) EXCEPT !.flip = f] : r \in B, re \in 0..2, tl \in {-1, 1, 9}, sl \in {-1, 1, 9}, f \in B}
    [] Family = "noise"  -> {[Cfg(1, 1, 1, 1, 1, 5, 5) EXCEPT !.flip = f] : f \in B}
    [] Family = "panic"  -> {[Cfg(r, w, 1, 1, re, 5, 5) EXCEPT !.flip = f] : r \in B, w \in B, re \in {-1, 1}, f \in B}
    [] Family = "lost"   -> {Cfg(re, 0, 0, 0, 0, tl, sl) : re \in B, tl \in {-1, 5}, sl \in {-1, 0, 1, 5, 15, 16}}
    [] Family = "sizes"  -> {[Cfg(0, 0, 0, 0, -1, tl, sl) EXCEPT !.n1 = n[1], !.n2 = n[1] * n[2]] :
                             n \in ({2, 10, 100} \X {2, 3, 10}) \cup ({1000, 65536, 1048576, 536870912} \X {2}), tl \in {-1, 3, 5}, sl \in {-1, 3, 5}}
                             \cup {[Cfg(r, 0, a, a, 1, 3, 3) EXCEPT !.n1 = n[1], !.n2 = n[1] * n[2]] : r \in B, a \in B, n \in {<<2, 3>>, <<10, 10>>, <<16, 16>>, <<536870912, 2>>}}
    [] Family = "many"   -> {Cfg(x, y, 0, x, r, tl, 5) : x \in B, y \in B, r \in {4, 5, 9, 10, 12, 20}, tl \in {1, 5}} \cup {Cfg(0, 0, 0, 0, 260, 5, 5)}     \* past what 8 bits hold
    [] Family = "aux"    -> {[Cfg(0, 0, 0, 0, 0, -1, -1) EXCEPT !.al = 1]}
    [] Family = "custom" -> {[Cfg(0, 0, 0, 0, 0, -1, -1) EXCEPT !.cl = 1]}

\* n-th stage: makes waiting vary without multiplying the scenarios
Waity == {<<>>, <<W>>, <<W, W>>}
Vary == CASE Len(hist) % 3 = 0 -> <<>> [] Len(hist) % 3 = 1 -> <<W>> [] OTHER -> <<W, W>>

Panics == IF Family = "panic" THEN {<<P>>, <<T(1), W, K(10), P>>} ELSE {}

ResetMenu ==
  CASE Family = "noise" /\ attempt = 0 /\ pc = 1 -> {<<T(5000000), W>>, <<K(100000), W, M(500000)>>} \cup (IF Deep THEN {<<>>} ELSE {})
    [] Family = "noise" /\ pc <= 3 -> {<<W, F, M(7000)>>, <<T(100), K(50000)>>}
    [] Family = "noise" -> {<<M(1000000), T(300)>>, <<K(2000000), W, T(9000)>>, <<F>>}
    [] OTHER -> {Vary} \cup Panics
WarmupMenu ==
  CASE Family = "noise" -> {<<T(9000), K(1000000)>>}
    [] OTHER -> {Vary} \cup Panics
AssertMenu ==
  CASE Family = "noise" -> IF attempt = 0 THEN {<<T(4000), W, M(400000)>>} \cup (IF Deep THEN {<<>>} ELSE {}) ELSE {<<K(5000), T(77)>>}
    [] OTHER -> {Vary} \cup Panics
Pass1Menu ==
  CASE Family \in {"space", "aux"} -> {<<M(U1)>>, <<W, M(U1), W>>}
    [] Family \in {"both", "sizes"}  -> {<<T(U1), W, M(U1)>>}
    [] Family = "lost" -> {<<T(U1), W, M(U1)>>} \cup {<<T(U1), M(U1)>> \o x : x \in Saving}
    [] Family = "noise" -> IF attempt = 0 THEN {<<T(U1), W, K(U1)>>, <<W, F, M(U1), T(U1)>>, <<K(400), T(400), W, K(600), F, T(600)>>}
                           ELSE {<<T(600), K(U1), W, T(400)>>}
    [] Family = "panic" -> {<<T(U1), M(U1)>>} \cup Panics
    [] OTHER -> {<<T(U1)>> \o Vary}
Pass2Menu ==
  CASE Family \in {"stages", "equal"} -> {Vary \o <<T(U2For(c))>> : c \in {5, 6}}
    [] Family = "time"  -> {<<T(U2For(c))>> : c \in Around(cfg.tl)}
    [] Family \in {"space", "aux"} -> {<<M(U2For(c))>> : c \in Around(Max(cfg.sl, cfg.al))}
    [] Family = "sizes" /\ attempt > 0 -> {<<T(t * U1), W, M(s * U1)>> : t \in {1, 15}, s \in {1, 15}}
    [] Family = "sizes" -> {<<T(t * U1), W, M(s * U1)>> : t \in {1, 2, 3, 10, 15}, s \in {1, 2, 3, 10, 15}}
    [] Family = "many" -> {<<T(U2For(cfg.tl + 1 + Mod(attempt \div 2, 3)))>>} \cup (IF attempt \in {cfg.retries - 1, cfg.retries, 3} THEN {<<T(U2For(cfg.tl))>>, <<T(U2For(cfg.tl)), M(U1)>>} ELSE {})
    [] Family = "custom" -> {<<T(U2For(c))>> : c \in Around(cfg.cl)}
    [] Family = "both"  -> {<<T(U2For(c)), M(U2For(d))>> : c \in Around(cfg.tl) \ {16}, d \in Around(cfg.sl) \ {16}}
    [] Family = "noise" ->
        UNION {{<<T(U2For(c)), W, K(U2For(d))>>, <<F, M(U2For(d)), T(U2For(c))>>,
                <<T(U2For(c) - 100), M(100), K(U2For(d) \div 2), W, F, K(100), T(100), K(U2For(d) - 100), F>>}
               : c \in {5, 6}, d \in {5, 6}}
    [] Family = "lost" -> {<<T(U2For(5)), M(U1 \div d)>> : d \in {1, 10}} \cup {x \o <<T(U2For(c)), M(U1)>> : x \in Saving, c \in {5, 6}}
    [] Family = "panic" -> {<<T(U2For(c)), M(U1)>> : c \in {5, 6}} \cup Panics

Menu(s) == CASE s = "reset" -> ResetMenu [] s = "warmup" -> WarmupMenu [] s = "pass1" -> Pass1Menu [] s = "pass2" -> Pass2Menu [] OTHER -> AssertMenu

MCInit == (\E c \in Cfgs : StartWith(c)) /\ hist = <<>> /\ token = 0
MCNext == \/ /\ out = "running" /\ ~busy /\ pc <= Len(Prog)
             /\ Begin(Prog[pc], data) /\ UNCHANGED <<hist, token>>
          \/ /\ busy
             /\ \E ops \in Menu(Prog[pc]) : End(Prog[pc], ops, token + 1) /\ hist' = Append(hist, [s |-> Prog[pc], ops |-> ops])
             /\ token' = token + 1
          \/ Judge /\ UNCHANGED <<hist, token>>
MCSpec == MCInit /\ [][MCNext]_<<vars, hist, token>> /\ WF_<<vars, hist, token>>(MCNext)

Emit == Done => PrintT("SCN " \o ToJson([kind |-> "async", cfg |-> cfg, calls |-> hist]))
=============================================================================
