----------------------------- MODULE BitmanTrace -----------------------------
(* Bits of a byte array in little ("le") or big ("be") endian order; *)
(* bytes is the part of the array beginning at byte off, the rest is watched *)
(* by the recorder (intact).                                                 *)
EXTENDS TraceLib, Bitwise
VARIABLES bytes, off
tvars == <<l, bytes, off>>
TraceInit == l = 1 /\ bytes = <<>> /\ off = 0
Begin == IsEvent("Begin") /\ bytes' = Ev.data /\ off' = Ev.off
At(p) == (p \div 8) - off + 1
Weight(ord, p) == IF ord = "le" THEN 2^(p % 8) ELSE 2^(7 - (p % 8))
BitOf(ord, p) == (bytes[At(p)] \div Weight(ord, p)) % 2
With(ord, p, v) == [bytes EXCEPT ![At(p)] = @ + (v - BitOf(ord, p)) * Weight(ord, p)]
Seen == UNCHANGED off /\ Ev.data = bytes' /\ Ev.intact
Set == IsEvent("Set") /\ bytes' = With(Ev.ord, Ev.p, Ev.v) /\ Seen
Flip == IsEvent("Flip") /\ bytes' = (IF Ev.v = 1 THEN With(Ev.ord, Ev.p, 1 - BitOf(Ev.ord, Ev.p)) ELSE bytes) /\ Seen
Get == IsEvent("Get") /\ Ev.v = BitOf(Ev.ord, Ev.p) /\ UNCHANGED bytes /\ Seen
TraceNext == Begin \/ Set \/ Flip \/ Get
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
