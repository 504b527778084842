---------------------------- MODULE XorshiftModel ----------------------------
(* Design model: three chained xorshifts (left A, right B, left C) on W bits *)
(* are a bijection fixing only zero, so a nonzero seed never dies.           *)
EXTENDS Integers, Bitwise, FiniteSets, TLC
CONSTANTS W, A, B, C
VARIABLES y, seed
Mask(v) == v % 2^W
F(v) == LET a == v ^^ Mask(v * 2^A)
            b == a ^^ shiftR(a, B) IN b ^^ Mask(b * 2^C)
Init == seed \in 0 .. 2^W-1 /\ y = seed
Next == y' = F(y) /\ UNCHANGED seed /\ y' # seed
Spec == Init /\ [][Next]_<<y, seed>>
Range == y \in 0 .. 2^W-1
NeverDies == seed # 0 => y # 0
Bijective == \A v \in 0 .. 2^W-1 : v # y => F(v) # F(y)
=============================================================================
