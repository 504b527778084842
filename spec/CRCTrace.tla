------------------------------ MODULE CRCTrace ------------------------------
EXTENDS TraceLib, CRC
VARIABLES poly, reg, width
tvars == <<l, poly, reg, width>>
TraceInit == l = 1 /\ poly = <<0>> /\ reg = <<0>> /\ width = 0
Begin == IsEvent("Begin") /\ poly' = Ev.poly /\ reg' = Ev.init /\ width' = Ev.W
Keep == UNCHANGED <<poly, width>>
Update == IsEvent("Update") /\ reg' = Feed(poly, reg, Ev.d, Ev.n) /\ Ev.r = reg' /\ Keep
(* a run of updates of n bits each, with the result of every one *)
Run == IsEvent("Run")
  /\ Len(Ev.r) = Len(Ev.d)
  /\ \E all \in {FoldLeft(LAMBDA acc, k : Append(acc, Feed(poly, acc[k], Ev.d[k], Ev.n)), <<reg>>, [k \in 1 .. Len(Ev.d) |-> k])} :
     /\ \A k \in 1 .. Len(Ev.d) : Ev.r[k] = all[k+1]
     /\ reg' = all[Len(Ev.d) + 1]
  /\ Keep
Read == IsEvent("Read") /\ Ev.r = reg /\ UNCHANGED reg /\ Keep
Reset == IsEvent("Reset") /\ reg' = Ev.v /\ Keep
TraceNext == Begin \/ Update \/ Run \/ Read \/ Reset
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
