------------------------------ MODULE AllocRace ------------------------------
(* The algorithm of the metered allocator, one atomic step at a time (the counters of an operation being one step, as well as *)
(* the enqueueing of a save point), along with what AllocHistory says of the calls and returns so far.                        *)
EXTENDS AllocHistory
VARIABLES prog, stage, at, pc, reg, cur, mn, mx, count, ring, head, abs
avars == <<prog, stage, at, pc, reg, cur, mn, mx, count, ring, head, abs>>

T(p) == Len(p.threads)
Ops(t) == IF t = 0 THEN (IF stage = 1 THEN prog.setup ELSE prog.final) ELSE prog.threads[t]
NoReg == [u |-> 0, x |-> 0, y |-> 0, lo |-> 0, hi |-> 0]
Init(p) == /\ prog = p /\ stage = 1 /\ at = [t \in 0..T(p) |-> 1] /\ pc = [t \in 0..T(p) |-> "call"] /\ reg = [t \in 0..T(p) |-> NoReg]
           /\ cur = 0 /\ mn = 0 /\ mx = 0 /\ count = <<0, 0, 0, 0, 0, 0, 0, 0, 0>> /\ ring = <<>>
           /\ head = [i \in SaveIds |-> [at |-> 0, used |-> 0, count |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0>>]]
           /\ abs = {Start(p.n, T(p))}
Runs(t) == IF t = 0 THEN stage \in {1, 3} ELSE stage = 2
Op(t) == Ops(t)[at[t]]
R(t) == reg[t]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Regs(t, r) == reg' = [reg EXCEPT ![t] = r]
ReturnWith(t, r) == abs' = Ret(abs, t, r) /\ pc' = [pc EXCEPT ![t] = "call"] /\ at' = [at EXCEPT ![t] = @ + 1]
Plain == [ok |-> TRUE, used |-> 0, lo |-> 0, hi |-> 0, ct |-> <<>>]
The == CHOOSE s \in abs : TRUE
Stats == <<cur, mn, mx>>

Invoke(t) == /\ pc[t] = "call" /\ at[t] <= Len(Ops(t))
             /\ abs' = Call(abs, t, Op(t).o, Op(t).b, Op(t).n, Op(t).s)
             /\ Goto(t, CASE Op(t).o \in MemoryOps -> "count" [] Op(t).o = "save" -> "s1" [] Op(t).o = "query" -> "q1")
             /\ UNCHANGED <<prog, stage, at, reg, Stats, count, ring, head>>
Count(t) == /\ pc[t] = "count" /\ count' = [k \in 1..9 |-> count[k] + Counted(The.th[t])[k]]
            /\ Goto(t, "use") /\ UNCHANGED <<prog, stage, at, reg, Stats, ring, head, abs>>
UseStep(t) == LET d == Delta(The, t) IN
              /\ pc[t] = "use" /\ cur' = cur + d
              /\ IF d = 0 THEN ReturnWith(t, Plain) /\ UNCHANGED reg
                 ELSE abs' = Use(abs, t, cur + d) /\ Regs(t, [R(t) EXCEPT !.u = cur + d]) /\ Goto(t, "min") /\ UNCHANGED at
              /\ UNCHANGED <<prog, stage, mn, mx, count, ring, head>>
Local == <<prog, stage, count, ring, head>>
MinLoad(t) == pc[t] = "min" /\ Regs(t, [R(t) EXCEPT !.x = mn]) /\ Goto(t, "mincas") /\ UNCHANGED <<at, Stats, abs, Local>>
MinCas(t) == /\ pc[t] = "mincas" /\ UNCHANGED <<at, cur, mx, abs, Local>>
             /\ IF R(t).u >= R(t).x THEN Goto(t, "max") /\ UNCHANGED <<reg, mn>>
                ELSE IF mn = R(t).x THEN mn' = R(t).u /\ Goto(t, "max") /\ UNCHANGED reg
                ELSE Regs(t, [R(t) EXCEPT !.x = mn]) /\ UNCHANGED <<pc, mn>>
MaxLoad(t) == pc[t] = "max" /\ Regs(t, [R(t) EXCEPT !.x = mx]) /\ Goto(t, "maxcas") /\ UNCHANGED <<at, Stats, abs, Local>>
MaxCas(t) == /\ pc[t] = "maxcas" /\ UNCHANGED <<cur, mn, Local>>
             /\ IF R(t).u <= R(t).x THEN ReturnWith(t, Plain) /\ UNCHANGED <<reg, mx>>
                ELSE IF mx = R(t).x THEN mx' = R(t).u /\ ReturnWith(t, Plain) /\ UNCHANGED reg
                ELSE Regs(t, [R(t) EXCEPT !.x = mx]) /\ UNCHANGED <<pc, mx, at, abs>>

Step1(t, p, r, q) == pc[t] = p /\ Regs(t, r) /\ Goto(t, q) /\ UNCHANGED <<prog, stage, at, count, abs>>
Save(t) == \/ Step1(t, "s1", [R(t) EXCEPT !.x = mn], "s2") /\ UNCHANGED <<Stats, ring, head>>
           \/ Step1(t, "s2", [R(t) EXCEPT !.y = mx], "s3") /\ UNCHANGED <<Stats, ring, head>>
           \/ Step1(t, "s3", R(t), "s4") /\ ring' = Append(ring, [lo |-> R(t).x, hi |-> R(t).y]) /\ UNCHANGED <<Stats, head>>
           \/ Step1(t, "s4", R(t), "s5") /\ head' = [head EXCEPT ![Op(t).s].at = Len(ring)] /\ UNCHANGED <<Stats, ring>>
           \/ Step1(t, "s5", [R(t) EXCEPT !.u = cur], "s6") /\ UNCHANGED <<Stats, ring, head>>
           \/ Step1(t, "s6", R(t), "s7") /\ mn' = R(t).u /\ UNCHANGED <<cur, mx, ring, head>>
           \/ Step1(t, "s7", [R(t) EXCEPT !.u = cur], "s8") /\ UNCHANGED <<Stats, ring, head>>
           \/ Step1(t, "s8", R(t), "s9") /\ mx' = R(t).u /\ UNCHANGED <<cur, mn, ring, head>>
           \/ /\ pc[t] = "s9" /\ head' = [head EXCEPT ![Op(t).s].used = cur, ![Op(t).s].count = count]
              /\ ReturnWith(t, [Plain EXCEPT !.used = cur]) /\ UNCHANGED <<prog, stage, reg, Stats, count, ring>>
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Query(t) == LET h == head[Op(t).s] IN
           \/ Step1(t, "q1", [R(t) EXCEPT !.u = cur, !.lo = Least(cur, h.used), !.hi = Most(cur, h.used)], "q2") /\ UNCHANGED <<Stats, ring, head>>
           \/ /\ pc[t] = "q2" /\ UNCHANGED <<prog, stage, Stats, count, ring, head>>
              /\ IF Len(ring) - h.at > prog.n THEN ReturnWith(t, [Plain EXCEPT !.ok = FALSE]) /\ UNCHANGED reg
                 ELSE LET later == {ring[i] : i \in h.at+1..Len(ring)} IN
                      /\ Regs(t, [R(t) EXCEPT !.lo = MinOf({@} \cup {e.lo : e \in later}), !.hi = MaxOf({@} \cup {e.hi : e \in later})])
                      /\ Goto(t, "q3") /\ UNCHANGED <<at, abs>>
           \/ Step1(t, "q3", [R(t) EXCEPT !.lo = Least(@, mn)], "q4") /\ UNCHANGED <<Stats, ring, head>>
           \/ Step1(t, "q4", [R(t) EXCEPT !.hi = Most(@, mx)], "q5") /\ UNCHANGED <<Stats, ring, head>>
           \/ /\ pc[t] = "q5" /\ UNCHANGED <<prog, stage, reg, Stats, count, ring, head>>
              /\ ReturnWith(t, [ok |-> TRUE, used |-> R(t).u, lo |-> R(t).lo, hi |-> R(t).hi, ct |-> [k \in 1..9 |-> count[k] - h.count[k]]])

NextStage == /\ stage < 4 /\ \A t \in DOMAIN at : Runs(t) => at[t] > Len(Ops(t)) /\ pc[t] = "call"
             /\ stage' = stage + 1 /\ at' = [at EXCEPT ![0] = 1]
             /\ UNCHANGED <<prog, pc, reg, Stats, count, ring, head, abs>>
Step(t) == Runs(t) /\ (Invoke(t) \/ Count(t) \/ UseStep(t) \/ MinLoad(t) \/ MinCas(t) \/ MaxLoad(t) \/ MaxCas(t) \/ Save(t) \/ Query(t))

\* every call and return so far is what AllocHistory allows
Conforms == abs # {}
UsedIsFlow == abs # {} => cur = The.used
NothingLost == stage = 4 /\ abs # {} => count = The.ct /\ cur = count[5] - count[6] + count[7] - count[8] + count[9]
=============================================================================
