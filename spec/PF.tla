--------------------------------- MODULE PF ---------------------------------
(* Arithmetic modulo a prime on big naturals.                                *)
EXTENDS Limbs
(* v is congruent to x modulo p, shown by the multiple q: x = q*p + v, or    *)
(* v = q*p + x when the lazy result v is the larger one                      *)
Reduces(x, q, p, v) == BigEq(x, BigAdd(BigMul(q, p), v))
IsResidue(x, q, p, v) == BigLt(v, p) /\ Reduces(x, q, p, v)
Congruent(x, q, p, v) == Reduces(x, q, p, v) \/ Reduces(v, q, p, x)
=============================================================================
