------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications: the recorded events of the real code  *)
(* and the position reached in them.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
TraceLen == TLCEval(Len(Trace))
VARIABLE l
IsEvent(name) == l <= TraceLen /\ Trace[l].e = name /\ l' = l + 1
Ev == Trace[l]
(* every line consumed: one state per line plus the initial state *)
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = TraceLen THEN TRUE ELSE PrintT(<<"REJECT", d>>)
=============================================================================
