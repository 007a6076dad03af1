------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Presentable quantities. The state is everything presentable that was     *)
(* created so far: presenting any of it, at any later time, must yield its  *)
(* own value, in the unit of its own kind.                                  *)
(***************************************************************************)
EXTENDS Figures
VARIABLE presented     \* sequence of [kind, unit, v]

\* ---- the behaviour
ShownStart == presented = <<>>
Create(kind, unit, v) == presented' = Append(presented, [kind |-> kind, unit |-> unit, v |-> v])
Show(h, s) == Right(presented[h], s) /\ UNCHANGED presented
=============================================================================
