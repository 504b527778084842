----------------------------- MODULE RotateTrace -----------------------------
(* Rotation of the first w lanes of a vector by s places.                    *)
EXTENDS TraceLib
VARIABLES size, w
tvars == <<l, size, w>>
TraceInit == l = 1 /\ size = 0 /\ w = 0
Begin == IsEvent("Begin") /\ size' = Ev.size /\ w' = Ev.w
Rot == IsEvent("Rot") /\ Len(Ev.out) = w /\ Len(Ev.in) = size
  /\ (\A j \in 0 .. w-1 : Ev.out[j+1] = Ev.in[((j - Ev.s + 2*w) % w) + 1])
  /\ UNCHANGED <<size, w>>
TraceNext == Begin \/ Rot
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
