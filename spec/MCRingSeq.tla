----------------------------- MODULE MCRingSeq -----------------------------
(* Sequential histories of a ring buffer with several consumers. Each operation has a single answer, by the definition of        *)
(* RingHistory, and it is the one of the plain description below.                                                              *)
EXTENDS RingHistory, TLC, Json, FiniteSets
CONSTANTS Ns, Depth, Consumers, Bursts     \* ring sizes; steps; consumers; how many times the operation of a step may repeat
VARIABLES n, ops, S, total, pos, dead, fits

vars == <<n, ops, S, total, pos, dead, fits>>
Init == n \in Ns /\ ops = <<>> /\ S = {Start(n, 0)} /\ total = 0 /\ pos = [c \in 0..Consumers-1 |-> -1] /\ dead = [c \in 0..Consumers-1 |-> FALSE] /\ fits = TRUE

Op(o, c, v) == [o |-> o, c |-> c, v |-> v]
\* the plain description: what a consumer c, at its position, has to answer
Late(c) == dead[c] \/ total - pos[c] > n
Elements(from, to) == [i \in 1..(to - from) |-> from + i]
Answer(o, c) == CASE o \in {"enq", "cons"} -> <<"unit", <<>>>>
                  [] Late(c) -> <<"err", <<>>>>
                  [] o = "deq" -> IF pos[c] = total THEN <<"none", <<>>>> ELSE <<"ok", <<pos[c] + 1>>>>
                  [] o = "peek" -> <<"ok", Elements(pos[c], total)>>
\* others aren't possible
Wrong(o, c) == {<<"ok", <<pos[c] + 2>>>>, <<"ok", <<pos[c]>>>>, <<"ok", Elements(pos[c] - 1, total)>>, <<"ok", Elements(pos[c], total - 1)>>, <<"err", <<>>>>, <<"none", <<>>>>, <<"panic", <<>>>>}
Do(o, c) ==
  LET called == Call(S, 0, o, c, total + 1)
      a == Answer(o, c)
  IN /\ (o \in {"deq", "peek"} => pos[c] # -1)
     /\ S' = Ret(called, 0, a[1], a[2])
     /\ fits' = (S' # {} /\ \A w \in Wrong(o, c) : w = a \/ (w = <<"ok", <<>>>> /\ a = <<"ok", <<>>>>) \/ Ret(called, 0, w[1], w[2]) = {})
     /\ total' = IF o = "enq" THEN total + 1 ELSE total
     /\ pos' = CASE o = "cons" -> [pos EXCEPT ![c] = total]
                 [] o = "deq" /\ a[1] = "ok" -> [pos EXCEPT ![c] = @ + 1]
                 [] OTHER -> pos
     /\ dead' = CASE o = "cons" -> [dead EXCEPT ![c] = FALSE]
                  [] a[1] = "err" -> [dead EXCEPT ![c] = TRUE]
                  [] OTHER -> dead
     /\ ops' = Append(ops, Op(o, c, IF o = "enq" THEN total + 1 ELSE 0))
     /\ UNCHANGED n
Next == /\ Len(ops) < Depth
        /\ \/ Do("enq", 0)
           \/ \E c \in 0..Consumers-1, o \in {"deq", "peek", "cons"} : Do(o, c)
\* runs of enqueues get consumers late
Biased == Next /\ (Bursts > 2 => RandomElement(1..10) = 1 \/ ops'[Len(ops')].o = "enq")
               /\ (RandomElement(1..3) = 1 \/ ops'[Len(ops')].o = "enq" \/ \A i \in 1..Len(ops) : ops[i].o # "cons")
MCSpec == Init /\ [][IF Bursts > 1 THEN Biased ELSE Next]_vars

Determined == fits
Emit == Len(ops) = Depth => PrintT("SCN " \o ToJson([kind |-> "ring", n |-> n, setup |-> ops, threads |-> <<>>, final |-> <<>>]))
=============================================================================
