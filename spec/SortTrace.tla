------------------------------ MODULE SortTrace ------------------------------
(* Stable sorting: the result is the one rearrangement that is ordered by    *)
(* key with equal keys in their original order.  Elements carry their        *)
(* original position; out[k] is the position of the element now at k.        *)
EXTENDS TraceLib
VARIABLE limit
tvars == <<l, limit>>
TraceInit == l = 1 /\ limit = 0
Begin == IsEvent("Begin") /\ limit' = Ev.max
Keep == UNCHANGED limit
Stable(keys, out) ==
  /\ Len(out) = Len(keys)
  /\ \A k \in 1 .. Len(out) : out[k] \in 1 .. Len(keys)
  /\ \A k \in 1 .. Len(out) - 1 :
        \/ keys[out[k]] < keys[out[k+1]]
        \/ keys[out[k]] = keys[out[k+1]] /\ out[k] < out[k+1]
(* strictly increasing (key, position) pairs of the right number: a permutation *)
Sort == IsEvent("Sort") /\ Ev.intact /\ Stable(Ev.keys, Ev.out) /\ Keep
(* the permutation is returned, the keys are sorted along *)
Order == IsEvent("Order") /\ Ev.intact /\ Stable(Ev.keys, Ev.out)
         /\ Len(Ev.sorted) = Len(Ev.keys)
         /\ (\A k \in 1 .. Len(Ev.keys) : Ev.sorted[k] = Ev.keys[Ev.out[k]]) /\ Keep
(* many small arrays: keys and out are sequences of arrays *)
Sorts == IsEvent("Sorts") /\ Ev.intact /\ Len(Ev.keys) = Len(Ev.out)
         /\ (\A i \in 1 .. Len(Ev.keys) : Stable(Ev.keys[i], Ev.out[i])) /\ Keep
(* plain values *)
Values == IsEvent("Values") /\ Ev.intact /\ Len(Ev.out) = Len(Ev.keys)
  /\ LET n == Len(Ev.keys)
         cnt(s, v) == Len(SelectSeq(s, LAMBDA x : x = v)) IN
     /\ \A k \in 1 .. n-1 : Ev.out[k] <= Ev.out[k+1]
     /\ \A k \in 1 .. n : cnt(Ev.keys, Ev.keys[k]) = cnt(Ev.out, Ev.keys[k])
  /\ Keep
TraceNext == Begin \/ Sort \/ Order \/ Sorts \/ Values
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
