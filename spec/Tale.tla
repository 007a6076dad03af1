-------------------------------- MODULE Tale --------------------------------
(***************************************************************************)
(* What a test tells: the report of each attempt, as it progresses, goes to  *)
(* where the build says reports should -- and nothing goes anywhere else;    *)
(* when it fails, the message of the panic tells what was exceeded, by how   *)
(* much, and how it went on the previous attempts.                          *)
(* Texts are sequences of tokens: one for each piece of information.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sink,      \* "stdout", "stderr" or "none"
          Metered    \* whether the allocations are

VARIABLE said        \* tokens, so far -- even if there is nowhere to tell them

Streams == {"stdout", "stderr"}
Says(ts) == said' = said \o ts

\* classes are numbered as by Classifier
Excess(kind, op, limit, class) == kind \o " " \o op \o " " \o ToString(limit) \o " " \o ToString(class)
\* what is told about the passes of an analysed operation
Analysis(title, tc, sc) == <<"title:" \o title, "1", "2", "time:" \o ToString(tc), "space:" \o ToString(sc)>>

\* so that behaviours that tell something else are left behind as soon as possible
SoFarAs(text) == Len(said) <= Len(text) /\ \A i \in 1..Len(said) : said[i] = text[i]

\* ------------------------------------------------------------- messages of failures
NoMessage == [k |-> "none", n |-> 0, last |-> "", prev |-> {}]
UserMessage == [k |-> "user", n |-> 0, last |-> "", prev |-> {}]
\* the distinct failures of the previous attempts and how many of each
Counted(fails) == {<<fails[i], Cardinality({j \in 1..Len(fails) : fails[j] = fails[i]})>> : i \in 1..Len(fails)}
ItemsOf(q) == {q[i] : i \in 1..Len(q)}
SameMessage(told, due) == /\ told.k = due.k /\ told.n = due.n /\ told.last = due.last
                          /\ ItemsOf(told.prev) = due.prev /\ Len(told.prev) = Cardinality(due.prev)

\* ------------------------------------------------------------- the whole, in the end
ToldAsDue(tr, due) ==
  /\ \A s \in Streams : IF s = Sink THEN tr[s] = said ELSE tr[s] = <<>> /\ tr.bytes[s] = 0
  /\ SameMessage(tr.msg, due)
  /\ (~Metered => tr.mem = 0)
=============================================================================
