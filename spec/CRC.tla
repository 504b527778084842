--------------------------------- MODULE CRC ---------------------------------
(* Reflected CRC register in limbs, fed least significant bit first.         *)
EXTENDS Limbs
FeedBit(poly, reg, b) ==
  LET fb == reg[1] % 2 # b
      sh == LShr1(reg) IN
  IF fb THEN LXor(sh, poly) ELSE sh
(* feed the w least significant bits of the limb word d *)
Feed(poly, reg, d, w) == FoldLeft(LAMBDA acc, i : FeedBit(poly, acc, LBit(d, i-1)), reg, [i \in 1 .. w |-> i])
=============================================================================
