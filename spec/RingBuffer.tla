----------------------------- MODULE RingBuffer -----------------------------
(***************************************************************************)
(* The algorithm of the ring buffer, one atomic step at a time, and (abs) all *)
(* that RingHistory says might be going on given the calls and returns so     *)
(* far: it never gets empty if the algorithm does what it has to.            *)
(* Thread 0 runs alone before (setup) and after (final) the others.           *)
(***************************************************************************)
EXTENDS RingHistory

VARIABLES
  prog,      \* [n, setup, threads, final] -- sequences of [o, c, v]
  stage,     \* 1: setup, 2: threads, 3: final, 4: over
  at,        \* per thread: the operation it is in
  pc,        \* per thread: the next step
  reg,       \* per thread: registers [k, h, p]
  rsv, tail, slots, \* reserved and published tails; elements
  head, lost,  \* per consumer
  abs

rvars == <<prog, stage, at, pc, reg, rsv, tail, slots, head, lost, abs>>

T(p) == Len(p.threads)
Ops(t) == IF t = 0 THEN (IF stage = 1 THEN prog.setup ELSE prog.final) ELSE prog.threads[t]
Init(p) == /\ prog = p /\ stage = 1 /\ at = [t \in 0..T(p) |-> 1] /\ pc = [t \in 0..T(p) |-> "call"]
           /\ reg = [t \in 0..T(p) |-> [k |-> 0, h |-> 0, p |-> 0]]
           /\ rsv = 0 /\ tail = 0 /\ slots = [i \in 0..p.n-1 |-> 0]
           /\ head = [c \in 0..MaxConsumers-1 |-> 0] /\ lost = [c \in 0..MaxConsumers-1 |-> FALSE]
           /\ abs = {Start(p.n, T(p))}

Runs(t) == IF t = 0 THEN stage \in {1, 3} ELSE stage = 2
Op(t) == Ops(t)[at[t]]
Goto(t, x) == pc' = [pc EXCEPT ![t] = x]
Reg(t, f, v) == reg' = [reg EXCEPT ![t][f] = v]
IsLost(h) == rsv - h > prog.n
Mem == <<rsv, tail, slots, head, lost>>

First == [enq |-> "reserve", deq |-> "head", peek |-> "head", cons |-> "anchor"]
Invoke(t) == /\ pc[t] = "call" /\ at[t] <= Len(Ops(t))
             /\ abs' = Call(abs, t, Op(t).o, Op(t).c, Op(t).v)
             /\ Goto(t, First[Op(t).o]) /\ UNCHANGED <<prog, stage, at, reg, Mem>>
Return(t, r, vs) == /\ abs' = Ret(abs, t, r, vs) /\ Goto(t, "call") /\ at' = [at EXCEPT ![t] = @ + 1]

Reserve(t) == /\ pc[t] = "reserve" /\ rsv' = rsv + 1 /\ Reg(t, "k", rsv) /\ Goto(t, IF rsv < prog.n THEN "write" ELSE "await")
              /\ UNCHANGED <<prog, stage, at, tail, slots, head, lost, abs>>
\* the element to be replaced has to be there
Await(t) == /\ pc[t] = "await" /\ reg[t].k - tail < prog.n /\ Goto(t, "write")
            /\ UNCHANGED <<prog, stage, at, reg, Mem, abs>>
Write(t) == /\ pc[t] = "write" /\ slots' = [slots EXCEPT ![reg[t].k % prog.n] = Op(t).v] /\ Goto(t, "publish")
            /\ UNCHANGED <<prog, stage, at, reg, rsv, tail, head, lost, abs>>
Publish(t) == /\ pc[t] = "publish" /\ tail = reg[t].k /\ tail' = tail + 1 /\ Return(t, "unit", <<>>)
              /\ UNCHANGED <<prog, stage, reg, rsv, slots, head, lost>>

Anchor(t) == /\ pc[t] = "anchor" /\ head' = [head EXCEPT ![Op(t).c] = tail] /\ lost' = [lost EXCEPT ![Op(t).c] = FALSE]
             /\ Return(t, "unit", <<>>) /\ UNCHANGED <<prog, stage, reg, rsv, tail, slots>>

LoadHead(t) == pc[t] = "head" /\ Reg(t, "h", head[Op(t).c]) /\ Goto(t, "tail") /\ UNCHANGED <<prog, stage, at, Mem, abs>>
LoadTail(t) == pc[t] = "tail" /\ Reg(t, "p", tail) /\ Goto(t, "told") /\ UNCHANGED <<prog, stage, at, Mem, abs>>
Told(t) == /\ pc[t] = "told"
           /\ IF lost[Op(t).c] THEN Return(t, "err", <<>>) /\ UNCHANGED <<prog, stage, reg, Mem>>
              ELSE IF reg[t].h = reg[t].p
              THEN Return(t, IF Op(t).o = "deq" THEN "none" ELSE "ok", <<>>) /\ UNCHANGED <<prog, stage, reg, Mem>>
              ELSE Goto(t, "check") /\ UNCHANGED <<prog, stage, at, reg, Mem, abs>>
Peeked(t) == [i \in 1..(reg[t].p - reg[t].h) |-> slots[(reg[t].h + i - 1) % prog.n]]
Check(t) == /\ pc[t] = "check"
            /\ IF IsLost(reg[t].h) THEN Goto(t, "recheck") /\ UNCHANGED <<prog, stage, at, reg, Mem, abs>>
               ELSE IF Op(t).o = "peek" THEN Return(t, "ok", Peeked(t)) /\ UNCHANGED <<prog, stage, reg, Mem>>
               ELSE Goto(t, "take") /\ UNCHANGED <<prog, stage, at, reg, Mem, abs>>
Recheck(t) == /\ pc[t] = "recheck"
              /\ IF head[Op(t).c] # reg[t].h
                 THEN Reg(t, "h", head[Op(t).c]) /\ Goto(t, "tail") /\ UNCHANGED <<prog, stage, at, Mem, abs>>
                 ELSE lost' = [lost EXCEPT ![Op(t).c] = TRUE] /\ Return(t, "err", <<>>) /\ UNCHANGED <<prog, stage, reg, rsv, tail, slots, head>>
Take(t) == /\ pc[t] = "take"
           /\ IF head[Op(t).c] = reg[t].h
              THEN head' = [head EXCEPT ![Op(t).c] = @ + 1] /\ Goto(t, "verify") /\ UNCHANGED <<prog, stage, at, reg, rsv, tail, slots, lost, abs>>
              ELSE Reg(t, "h", head[Op(t).c]) /\ Goto(t, "tail") /\ UNCHANGED <<prog, stage, at, Mem, abs>>
Verify(t) == /\ pc[t] = "verify"
             /\ IF IsLost(reg[t].h)
                THEN lost' = [lost EXCEPT ![Op(t).c] = TRUE] /\ Return(t, "err", <<>>) /\ UNCHANGED <<prog, stage, reg, rsv, tail, slots, head>>
                ELSE Return(t, "ok", <<slots[reg[t].h % prog.n]>>) /\ UNCHANGED <<prog, stage, reg, Mem>>

NextStage == /\ stage < 4 /\ \A t \in DOMAIN at : Runs(t) => at[t] > Len(Ops(t)) /\ pc[t] = "call"
             /\ stage' = stage + 1 /\ at' = [at EXCEPT ![0] = 1]
             /\ UNCHANGED <<prog, pc, reg, Mem, abs>>
Step(t) == Runs(t) /\ (Invoke(t) \/ Reserve(t) \/ Await(t) \/ Write(t) \/ Publish(t) \/ Anchor(t) \/ LoadHead(t) \/ LoadTail(t) \/ Told(t) \/ Check(t) \/ Recheck(t) \/ Take(t) \/ Verify(t))

\* ------------------------------------------------------------- properties
\* every call and return so far is what RingHistory allows
Conforms == abs # {}
TailsOrdered == tail <= rsv /\ \A c \in DOMAIN head : head[c] <= tail
\* published elements are in place, unless being overwritten
\* two threads never write (or release) the same slot at the same time
WritesExclusive == \A t, u \in DOMAIN at : t # u /\ pc[t] = "write" /\ pc[u] = "write" => reg[t].k % prog.n # reg[u].k % prog.n
PublishedInPlace == \A k \in 0..tail-1 : rsv - k <= prog.n => slots[k % prog.n] # 0
=============================================================================
