----------------------------- MODULE RingHistory -----------------------------
(***************************************************************************)
(* A concurrent ring buffer with independent consumers, as its users see it: *)
(* operations are called, take effect at some moments in between, and        *)
(* return.                                                                  *)
(*   - an enqueueing gets a ticket (its position in the sequence of all        *)
(*     elements) and, later, is published -- in the order of tickets;         *)
(*   - a consumer delivers the elements published after it was created, each  *)
(*     to a single dequeue;                                                 *)
(*   - slots are reused after n tickets: the reservation of ticket k + n       *)
(*     overwrites the element of ticket k. A consumer that lost an element    *)
(*     is dead: operations may tell so from then on -- and must, if called    *)
(*     after it got lost or after some operation told so.                   *)
(* The specification is a nondeterministic automaton: given the set of the     *)
(* states it may be in, calls and returns lead to another such set -- empty   *)
(* when what happened isn't allowed.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* a state: [n (slots), res (elements, in the order of their tickets), pub (how many are published),
\*           cons (consumers: [on, head (elements taken since ever), dead, told]), th (operations in progress, per thread)]
Idle == [o |-> "idle", v |-> 0, c |-> 0, k |-> 0, must |-> FALSE, empty |-> FALSE, h |-> -1, p |-> -1]
NoConsumer == [on |-> FALSE, head |-> 0, dead |-> FALSE, told |-> FALSE, void |-> FALSE]
MaxConsumers == 4
Start(n, threads) == [n |-> n, res |-> <<>>, pub |-> 0, cons |-> [c \in 0..MaxConsumers-1 |-> NoConsumer], th |-> [t \in 0..threads |-> Idle]]

\* the element following the ones taken was, or is being, overwritten
Behind(s, c) == Len(s.res) - s.cons[c].head > s.n
\* ... and so was the one of ticket k
Overwritten(s, k) == Len(s.res) - (k - 1) > s.n
\* operations called now have to tell about the overflow
Must(s, c) == s.cons[c].told \/ Behind(s, c)

\* --------------------------------------------------------- internal effects
\* of the operation in progress on the thread t
Effects(s, t) ==
  LET x == s.th[t]
      c == x.c
      h == IF x.o \in {"deq", "peek"} THEN s.cons[c].head ELSE 0
  IN CASE x.o = "idle" -> {}
       [] x.o \in {"deq", "peek"} /\ s.cons[c].void -> {}
       [] x.o = "enq" ->
            \* gets a ticket
            (IF x.k = 0 THEN {[s EXCEPT !.res = Append(@, x.v), !.th[t].k = Len(s.res) + 1]} ELSE {})
            \* is published
            \cup (IF x.k # 0 /\ x.k = s.pub + 1 THEN {[s EXCEPT !.pub = @ + 1]} ELSE {})
       [] x.o = "cons" ->
            \* anything published from now on is to be delivered
            IF x.h = -1 THEN {[s EXCEPT !.th[t].h = s.pub]} ELSE {}
       [] x.o = "deq" ->
            \* takes an element
            (IF x.k = 0 /\ ~x.empty /\ h < s.pub THEN {[s EXCEPT !.cons[c].head = h + 1, !.th[t].k = h + 1]} ELSE {})
            \* finds nothing there
            \cup (IF x.k = 0 /\ ~x.empty /\ h >= s.pub THEN {[s EXCEPT !.th[t].empty = TRUE]} ELSE {})
            \* realizes an element -- the one taken or the next one -- is lost
            \cup (IF ~s.cons[c].dead /\ ((x.k # 0 /\ Overwritten(s, x.k)) \/ Behind(s, c)) THEN {[s EXCEPT !.cons[c].dead = TRUE]} ELSE {})
       [] x.o = "peek" ->
            \* where to start from...
            (IF x.h = -1 THEN {[s EXCEPT !.th[t].h = h]} ELSE {})
            \* ... and then where to stop at
            \cup (IF x.h # -1 /\ x.p = -1 THEN {[s EXCEPT !.th[t].p = s.pub]} ELSE {})
            \cup (IF ~s.cons[c].dead /\ Behind(s, c) THEN {[s EXCEPT !.cons[c].dead = TRUE]} ELSE {})

RECURSIVE CloseFrom(_, _)
CloseFrom(frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET next == (UNION {UNION {Effects(s, t) : t \in DOMAIN s.th} : s \in frontier}) \ seen
       IN CloseFrom(next, seen \cup next)
\* the states that may be reached without calls and returns
Close(S) == CloseFrom(S, S)

\* -------------------------------------------------------------------- calls
Called(s, t, o, c, v) ==
  [s EXCEPT !.th[t] = [Idle EXCEPT !.o = o, !.c = c, !.v = v, !.must = (o \in {"deq", "peek"} /\ Must(s, c))]]
Call(S, t, o, c, v) == {Called(s, t, o, c, v) : s \in {x \in Close(S) : x.th[t].o = "idle" /\ (o \in {"deq", "peek"} => x.cons[c].on)}}

\* ------------------------------------------------------------------ returns
Done(s, t) == [s EXCEPT !.th[t] = Idle]
\* delivered: what was handed out is checked
RetOf(s, t, r, vs, delivered) ==
  LET x == s.th[t] IN
  CASE r = "unit" /\ x.o = "enq"  -> IF x.k # 0 /\ s.pub >= x.k THEN {Done(s, t)} ELSE {}
    [] r = "unit" /\ x.o = "cons" -> IF x.h # -1 THEN {[Done(s, t) EXCEPT !.cons[x.c] = [on |-> TRUE, head |-> x.h, dead |-> FALSE, told |-> FALSE, void |-> FALSE]]} ELSE {}
    [] r = "ok"   /\ x.o = "deq"  -> IF x.k # 0 /\ ~x.must /\ (delivered => vs = <<s.res[x.k]>>) THEN {Done(s, t)} ELSE {}
    [] r = "none" /\ x.o = "deq"  -> IF (x.empty \/ ~delivered) /\ ~x.must THEN {Done(s, t)} ELSE {}
    [] r = "ok"   /\ x.o = "peek" -> IF x.p # -1 /\ ~x.must /\ (delivered => vs = SubSeq(s.res, x.h + 1, x.p)) THEN {Done(s, t)} ELSE {}
    [] r = "err"  /\ x.o \in {"deq", "peek"} -> IF s.cons[x.c].dead THEN {[Done(s, t) EXCEPT !.cons[x.c].told = TRUE]} ELSE {}
    [] OTHER -> {}
Ret(S, t, r, vs) == UNION {RetOf(s, t, r, vs, TRUE) : s \in Close(S)}

\* ... overflows aside: a consumer becomes void once an element it didn't take is lost, or at errors (even if out of the blue): then, anything goes
Void == [on |-> TRUE, head |-> 0, dead |-> TRUE, told |-> TRUE, void |-> TRUE]
RetDelivery(S, t, r, vs) ==
  UNION {LET x == s.th[t] IN
         IF x.o \in {"deq", "peek"} /\ r # "panic" /\ (x.must \/ s.cons[x.c].void \/ r = "err") THEN {[Done(s, t) EXCEPT !.cons[x.c] = Void]}
         ELSE RetOf(s, t, r, vs, TRUE) : s \in Close(S)}
\* ... and looking just at when overflows are told about
RetOverflow(S, t, r, vs) == UNION {RetOf(s, t, r, vs, FALSE) : s \in Close(S)}
=============================================================================
