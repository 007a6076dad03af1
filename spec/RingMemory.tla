----------------------------- MODULE RingMemory -----------------------------
(* The algorithm of the ring buffer along with the happens-before its atomic operations establish: what is handed out, or *)
(* released, was written before -- for any interleaving.                                                                 *)
EXTENDS MCRing, MemoryModel
VARIABLES m, races
mvars == <<rvars, m, races>>

\* the atomic operations -- and their orderings -- of each step
HeadOf(t) == "head" \o ToString(Op(t).c)
Flag(t) == "lost" \o ToString(Op(t).c)
Old(t) == slots[reg[t].k % prog.n]
Atomically(t) ==
  CASE pc[t] = "reserve" -> Rmw(m, t, "rsv", FALSE, FALSE)
    [] pc[t] = "await"   -> Load(m, t, "tail", TRUE)
    [] pc[t] = "write"   -> Written(IF Old(t) = 0 THEN m ELSE Dropped(m, Old(t)), t, Op(t).v)
    [] pc[t] = "publish" -> Rmw(m, t, "tail", FALSE, TRUE)
    [] pc[t] = "anchor"  -> Load(m, t, "tail", FALSE)
    [] pc[t] = "head"    -> Load(m, t, HeadOf(t), FALSE)
    [] pc[t] = "tail"    -> Load(m, t, "tail", TRUE)
    [] pc[t] = "told"    -> Load(m, t, Flag(t), FALSE)
    [] pc[t] = "check"   -> Load(m, t, "rsv", FALSE)
    [] pc[t] = "recheck" -> IF head[Op(t).c] = reg[t].h THEN Store(m, t, Flag(t), FALSE) ELSE Load(m, t, HeadOf(t), FALSE)
    [] pc[t] = "take"    -> IF head[Op(t).c] = reg[t].h THEN Rmw(m, t, HeadOf(t), TRUE, FALSE) ELSE Load(m, t, HeadOf(t), FALSE)
    [] pc[t] = "verify"  -> IF IsLost(reg[t].h) THEN Store(m, t, Flag(t), FALSE) ELSE m
    [] OTHER -> m
\* the elements accessed by the step
Accessed(t) ==
  CASE pc[t] = "write" -> IF Old(t) = 0 THEN {} ELSE {Old(t)}
    [] pc[t] = "verify" -> IF IsLost(reg[t].h) THEN {} ELSE {slots[reg[t].h % prog.n]}
    [] pc[t] = "check" -> IF IsLost(reg[t].h) \/ Op(t).o # "peek" THEN {} ELSE {slots[(reg[t].h + i) % prog.n] : i \in 0..(reg[t].p - reg[t].h - 1)}
    [] OTHER -> {}

MInit == MCInit /\ m = MemStart(T(prog)) /\ races = FALSE
MNext == Explored /\ \/ /\ NextStage /\ UNCHANGED races
                        /\ m' = IF stage = 1 THEN Fork(m) ELSE IF stage = 2 THEN JoinAll(m) ELSE m
                     \/ \E t \in DOMAIN at : /\ Step(t)
                                             /\ m' = Atomically(t)
                                             /\ races' = (races \/ \E v \in Accessed(t) : ~MayRead(m', t, v) /\ ~(pc[t] = "write" /\ MayRead(m, t, v)))
MSpec == MInit /\ [][MNext]_mvars
NoRaces == ~races
ReleasedOnce == stage = 4 => Cardinality(m.gone) = (IF rsv > prog.n THEN rsv - prog.n ELSE 0)
=============================================================================
