----------------------------- MODULE ReportTrace -----------------------------
(***************************************************************************)
(* Checks recorded reports. `an` are the analyses, as the code gave them (or *)
(* was given); events are the lines of the report:                          *)
(*   title (name, kind), row (i, t: tokens), time (c), space (c, what, net,  *)
(*   aux); mid (op, pass, dt, ds: figures given while running); same (v: the *)
(*   report returned is the one output)                                     *)
(***************************************************************************)
EXTENDS Report, TLC, TraceBatch
VARIABLES tid, l, mids
Tr == Traces[tid]
Ev == Tr.ev
E == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ ReportOf(Traces[tid].an) /\ mids = {}
\* figures given while running: of each pass, exactly once
MidRight == /\ <<E.op, E.pass>> \notin mids
            /\ \E k \in 1..Len(Tr.an) : Tr.an[k].name = E.op /\ DurationRight(E.dt, Tr.an[k].p[E.pass]) /\ VariationRight(E.ds, Tr.an[k].p[E.pass], 1)
Step == \/ E.e = "title" /\ Title(E.name, E.kind) /\ UNCHANGED mids
        \/ E.e = "row" /\ Row(E.i, E.t) /\ UNCHANGED mids
        \/ E.e = "time" /\ TimeLine(E.c) /\ UNCHANGED mids
        \/ E.e = "space" /\ SpaceLine(E.c, E.what, E.net, E.aux) /\ UNCHANGED mids
        \/ E.e = "mid" /\ MidRight /\ mids' = mids \cup {<<E.op, E.pass>>} /\ UNCHANGED rvars
        \/ E.e = "same" /\ E.v = 1 /\ UNCHANGED <<rvars, mids>>
\* what a CRUD analysis says it was about: reads and updates go over the elements created before the pass; creations and deletions, over their own ones
SizesAsAsked(a) ==
  LET n == Tr.asked  created == IF \E k \in 1..Len(Tr.an) : Tr.an[k].name = "Create" THEN n[1] ELSE 0 IN
  CASE a.name = "Create" -> a.n1 = n[1] [] a.name = "Delete" -> a.n1 = n[4]
    [] a.name \in {"Read", "Update"} -> a.n1 = created /\ a.n2 = 2 * created /\ a.rep = n[IF a.name = "Read" THEN 2 ELSE 3]
Names == {Tr.an[k].name : k \in 1..Len(Tr.an)}
TNext == /\ UNCHANGED tid
         /\ \/ l <= Len(Ev) /\ Step /\ l' = l + 1
            \/ /\ l = Len(Ev) + 1 /\ Complete /\ Tr.out = "ok"
               /\ Tr.requested = [k \in 1..Len(Tr.an) |-> Tr.an[k].name]      \* what was requested is what was analysed
               /\ (Tr.via = "crud" => \A k \in 1..Len(Tr.an) : SizesAsAsked(Tr.an[k]))
               /\ (Tr.via # "built" => mids = Names \X {1, 2})
               /\ l' = l + 1 /\ UNCHANGED <<rvars, mids>>
TSpec == TInit /\ [][TNext]_<<rvars, tid, l, mids>>
Track == Reached(tid, l)
Report == WriteRejected(LAMBDA t : Len(Traces[t].ev) + 2)
=============================================================================
