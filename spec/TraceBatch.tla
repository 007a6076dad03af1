----------------------------- MODULE TraceBatch -----------------------------
(* Validation of many recorded traces in a single run of TLC.               *)
(* A trace is accepted when some behaviour consumes it completely; for each  *)
(* trace the longest prefix consumed is kept in the TLC register of its      *)
(* number (this needs a single worker).                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

ASSUME \A t \in 1..Len(Traces) : TLCSet(t, 0)

Reached(t, l) == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE

\* Goal(t) -- what the position gets to when the trace is accepted
WriteRejected(Goal(_)) ==
  JsonSerialize(IOEnv.OUT, [ rejected |-> {<<t, TLCGet(t)>> : t \in {x \in 1..Len(Traces) : TLCGet(x) < Goal(x)}},
                             accepted |-> {t \in 1..Len(Traces) : TLCGet(t) >= Goal(t)} ])
=============================================================================
