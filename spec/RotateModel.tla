----------------------------- MODULE RotateModel -----------------------------
(* Design model of the two 16 byte table rotation: a vector of 2*H lanes is  *)
(* shuffled within its halves twice, the second result has its halves        *)
(* exchanged, and both are combined; it equals the cyclic rotation.          *)
EXTENDS Integers, TLC
CONSTANTS H
VARIABLES w, s, j, rot0, rot1
vars == <<w, s, j, rot0, rot1>>
S == 2*H
None == -1
Init == w \in 1 .. S /\ s \in 0 .. w-1 /\ j = 0 /\ rot0 = [k \in 0 .. S-1 |-> None] /\ rot1 = [k \in 0 .. S-1 |-> None]
Fill == /\ j < w
        /\ LET pos == (j - s + w) % w IN
           IF j < H THEN IF pos < H THEN rot0' = [rot0 EXCEPT ![j] = pos] /\ UNCHANGED rot1
                         ELSE rot1' = [rot1 EXCEPT ![j+H] = pos-H] /\ UNCHANGED rot0
           ELSE IF pos < H THEN rot1' = [rot1 EXCEPT ![j-H] = pos] /\ UNCHANGED rot0
                ELSE rot0' = [rot0 EXCEPT ![j] = pos-H] /\ UNCHANGED rot1
        /\ j' = j + 1 /\ UNCHANGED <<w, s>>
Spec == Init /\ [][Fill]_vars
(* shuffle within halves: lane k takes lane t[k] of its own half, or zero *)
Shuf(a, t) == [k \in 0 .. S-1 |-> IF t[k] = None THEN 0 ELSE a[(k \div H) * H + t[k]]]
Swapped(a) == [k \in 0 .. S-1 |-> a[(k + H) % S]]
Rotated == j = w =>
  LET a == [k \in 0 .. S-1 |-> k + 1]
      b == Shuf(a, rot0)
      d == Swapped(Shuf(a, rot1)) IN
  \A k \in 0 .. w-1 : /\ b[k] + d[k] = a[(k - s + w) % w]
                      /\ b[k] = 0 \/ d[k] = 0
=============================================================================
