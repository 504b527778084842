--------------------------- MODULE PolarCodeTrace ---------------------------
EXTENDS TraceLib, PolarCode
VARIABLE chan
tvars == <<l, chan>>
TraceInit == l = 1 /\ chan = <<>>
(* p: limbs of the erasure probability; e: its exponent *)
Begin == IsEvent("Begin") /\ \E p \in {PNum(Ev.p, Ev.x)} : IsProb(p) /\ chan' = Channels(p, Ev.level)
Keep == UNCHANGED chan
Threshold == IsEvent("Threshold") /\ Ev.intact /\ ThresholdOK(chan, PNum(Ev.th, Ev.tx), Ev.frozen, Ev.K) = TRUE /\ Keep
Best == IsEvent("Best") /\ Ev.intact /\ BestOK(chan, Ev.frozen, Ev.K) = TRUE /\ Keep
Seq1 == IsEvent("Sequence") /\ Ev.intact /\ SequenceOK(chan, Ev.seq) = TRUE /\ Keep
TraceNext == Begin \/ Threshold \/ Best \/ Seq1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
