----------------------------- MODULE MCStandard -----------------------------
(* Model checking configurations of StandardRunner, which are also the source of the scenarios replayed on the code *)
EXTENDS StandardRunner, TLC, Json

CONSTANT Family   \* which configurations and closures are explored
VARIABLE hist     \* the closures run so far, to be replayed on the implementation

\* with n1 = 4, n2 = 8 and a first measurement of 1000, second measurements that hit each class
U1 == 1000
U2 == <<500, 1000, 1225, 1500, 1725, 2000, 2450, 3000, 3450, 4000, 6000, 8000, 12000, 16000, 500000, 1000000, 2000000>>
Mod(a, b) == a % b
U2For(c) == U2[c + 1]
Around(c) == {c - 1, c, c + 1, 16} \cap 0..16

T(n) == [o |-> "time", n |-> n]
K(n) == [o |-> "keep", n |-> n]
M(n) == [o |-> "tmp", n |-> n]
F == [o |-> "free", n |-> 0]
P == [o |-> "panic", n |-> 0]
S(n) == [o |-> "save", n |-> n]
\* up to the configured number of save points, and past it -- at once or little by little
Saving == {<<S(1)>>, <<S(1024)>>, <<S(1025)>>, <<S(500), K(10), S(700), F>>, <<S(3000)>>}

Cfg(r, tl, sl) == [retries |-> r, n1 |-> 4, n2 |-> 8, tl |-> tl, sl |-> sl]

Cfgs ==
  CASE Family = "time"  -> {Cfg(r, tl, 16) : r \in 0..3, tl \in 0..16}
    [] Family = "space" -> {Cfg(r, 16, sl) : r \in {0, 2}, sl \in 0..16}
    [] Family = "both"  -> {Cfg(r, tl, sl) : r \in 0..2, tl \in {1, 5, 9}, sl \in {1, 5, 9}}
    [] Family = "noise" -> {Cfg(1, 5, 5)}
    [] Family = "sizes" -> {[retries |-> 0, n1 |-> n1, n2 |-> n1 * k, tl |-> tl, sl |-> sl] : n1 \in {2, 10, 100}, k \in {2, 3, 10}, tl \in {1, 5}, sl \in {1, 5}}
                           \* sizes past what 8, 16 and 24 bits hold
                           \cup {[retries |-> 0, n1 |-> n1, n2 |-> n1 * 2, tl |-> tl, sl |-> sl] : n1 \in {1000, 65536, 1048576, 536870912}, tl \in {3, 5, 7}, sl \in {3, 5}}
                           \cup {[retries |-> 1, n1 |-> n[1], n2 |-> n[1] * n[2], tl |-> 3, sl |-> 3] : n \in {<<2, 3>>, <<10, 10>>, <<16, 16>>, <<536870912, 2>>}}
    [] Family = "many"  -> {Cfg(r, tl, 5) : r \in {4, 5, 9, 10, 12, 20}, tl \in {1, 5}} \cup {Cfg(260, 5, 5)}     \* past what 8 bits hold
    [] Family = "panic" -> {Cfg(r, 5, 5) : r \in 0..2}
    [] Family = "lost"  -> {Cfg(r, tl, sl) : r \in 0..1, tl \in {5}, sl \in {0, 1, 5, 15, 16}}

ResetMenu ==
  CASE Family = "noise" /\ attempt = 0 -> {<<>>, <<T(5000000)>>, <<K(100000)>>, <<M(500000)>>, <<K(3000), T(100), F>>, <<K(3000), F, K(7)>>}
    [] Family = "noise" -> {<<>>, <<T(7000), K(90000), M(1000000)>>, <<F>>}
    [] Family = "panic" -> {<<>>, <<P>>, <<T(1), K(10), P>>}
    [] Family = "lost" -> {<<>>, <<S(2000)>>}
    [] OTHER -> {<<>>}
Pass1Menu ==
  CASE Family = "space" -> {<<M(U1)>>, <<K(U1)>>}
    [] Family = "both"  -> {<<T(U1), M(U1)>>}
    [] Family = "noise" /\ attempt = 0 -> {<<T(U1), K(U1)>>, <<M(U1), T(U1)>>, <<K(400), T(400), K(600), F, T(600)>>, <<T(500), K(200), M(800), M(300), T(500)>>}
    [] Family = "noise" -> {<<T(U1), K(U1)>>, <<T(U1), M(U1)>>}
    [] Family = "sizes" -> {<<T(U1), M(U1)>>}
    [] Family = "panic" -> {<<T(U1), M(U1)>>, <<P>>, <<T(3), K(5), P>>}
    [] Family = "lost" -> {<<T(U1), M(U1)>>} \cup {<<T(U1), M(U1)>> \o x : x \in Saving}
    [] OTHER -> {<<T(U1)>>}
Pass2Menu ==
  CASE Family = "time"  -> {<<T(U2For(c))>> : c \in Around(cfg.tl)}
    [] Family = "space" -> {<<M(U2For(c))>> : c \in Around(cfg.sl)} \cup {<<K(U2For(c)), F>> : c \in Around(cfg.sl)}
    [] Family = "both"  -> {<<T(U2For(c)), M(U2For(d))>> : c \in Around(cfg.tl) \ {16}, d \in Around(cfg.sl) \ {16}}
    [] Family = "noise" ->
        UNION {{<<T(U2For(c)), K(U2For(d))>>, <<M(U2For(d)), T(U2For(c))>>, <<F, M(U2For(d)), T(U2For(c))>>,
                <<T(U2For(c) - 100), M(100), K(U2For(d) \div 2), F, K(100), T(100), K(U2For(d) - 100), F>>}
               : c \in {5, 6}, d \in {5, 6}}
    [] Family = "many" -> {<<T(U2For(cfg.tl + 1 + Mod(attempt \div 2, 3)))>>} \cup (IF attempt \in {cfg.retries - 1, cfg.retries, 3} THEN {<<T(U2For(cfg.tl))>>, <<T(U2For(cfg.tl)), M(U1)>>} ELSE {})
    [] Family = "sizes" /\ attempt > 0 -> {<<T(t * U1), M(s * U1)>> : t \in {1, 15}, s \in {1, 15}}
    [] Family = "sizes" -> {<<T(t * U1), M(s * U1)>> : t \in {1, 2, 3, 5, 10, 15}, s \in {1, 2, 3, 5, 10, 15}}
    [] Family = "panic" -> {<<T(U2For(c)), M(U1)>> : c \in {5, 6}} \cup {<<P>>, <<T(2000000), K(1), P>>}
    [] Family = "lost" -> {<<T(U2For(5)), M(U1 \div d)>> : d \in {1, 10}} \cup {x \o <<T(U2For(c)), M(U1)>> : x \in Saving, c \in {5, 6}}

Do(s, menu) == \E ops \in menu : RunStage(s, ops) /\ hist' = Append(hist, [s |-> s, ops |-> ops])

MCInit == (\E c \in Cfgs : StartWith(c)) /\ hist = <<>>
MCNext == \/ phase = "reset" /\ Do("reset", ResetMenu)
          \/ phase = "pass1" /\ Do("pass1", Pass1Menu)
          \/ phase = "pass2" /\ Do("pass2", Pass2Menu)
          \/ Judge /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>> /\ WF_<<vars, hist>>(MCNext)

Emit == phase = "done" => PrintT("SCN " \o ToJson([kind |-> "sync", cfg |-> cfg, calls |-> hist]))
=============================================================================
