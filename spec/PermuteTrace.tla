---------------------------- MODULE PermuteTrace ----------------------------
EXTENDS TraceLib, Permute
VARIABLES n, part      \* array size and the exchange partners for it
tvars == <<l, n, part>>
TraceInit == l = 1 /\ n = 0 /\ part = <<>>
Begin == IsEvent("Begin") /\ n' = Ev.n /\ part' = (IF Ev.shuffle THEN Partners(Ev.n) ELSE <<>>)
Keep == UNCHANGED <<n, part>>
Good(a) == Len(a) = n /\ Ev.intact
Call(name, result(_)) == IsEvent(name) /\ Good(Ev.in) /\ Ev.out = result(Ev.in) /\ Keep
ShuffleCall == Call("Shuffle", LAMBDA a : Shuffle(a, part))
UnshuffleCall == Call("Unshuffle", LAMBDA a : Unshuffle(a, part))
BitRevCall == Call("BitRev", BitRev)
InterCall == Call("Inter", LAMBDA a : Inter(a, Ev.order)) 
DeinterCall == Call("Deinter", LAMBDA a : Deinter(a, Ev.order))
(* large arrays: some elements followed, back they go the other way *)
Far == IsEvent("Far") /\ Ev.intact /\ Ev.restored /\ Ev.to = Tracked(n, Ev.from) /\ Ev.back = Ev.from /\ Keep
TraceNext == Far \/ Begin \/ ShuffleCall \/ UnshuffleCall \/ BitRevCall \/ InterCall \/ DeinterCall
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
