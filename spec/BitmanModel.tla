----------------------------- MODULE BitmanModel -----------------------------
(* Design model: mask arithmetic on bytes of W bits equals a bit memory.     *)
EXTENDS Integers, Bitwise, TLC
CONSTANTS W, BYTES
VARIABLES buf, mem
Bits == W * BYTES
Inv(m) == (2^W - 1) - m
Pos(p) == W - 1 - (p % W)
Init == buf \in [0 .. BYTES-1 -> 0 .. 2^W-1] /\ mem = [p \in 0 .. Bits-1 |-> shiftR(buf[p \div W], Pos(p)) % 2]
Set(p, v) == buf' = [buf EXCEPT ![p \div W] = (Inv(2^Pos(p)) & @) | (v * 2^Pos(p))] /\ mem' = [mem EXCEPT ![p] = v]
Flip(p, v) == buf' = [buf EXCEPT ![p \div W] = @ ^^ (v * 2^Pos(p))] /\ mem' = [mem EXCEPT ![p] = (@ + v) % 2]
Next == \E p \in 0 .. Bits-1, v \in {0, 1} : Set(p, v) \/ Flip(p, v)
Spec == Init /\ [][Next]_<<buf, mem>>
Same == \A p \in 0 .. Bits-1 : mem[p] = (shiftR(buf[p \div W], Pos(p)) % 2)
=============================================================================
