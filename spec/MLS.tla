--------------------------------- MODULE MLS ---------------------------------
(* Galois linear feedback shift register with feedback polynomial p.         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
RECURSIVE Deg(_)
Deg(p) == IF p <= 1 THEN 0 ELSE 1 + Deg(p \div 2)
Top(p) == 2^(Deg(p) - 1)
Out(p, r) == (r \div Top(p)) % 2
Step(p, r) == IF Out(p, r) = 1 THEN (2*(r - Top(p))) ^^ (p - 2*Top(p)) ELSE 2*r
Period(p) == 2^Deg(p) - 1
(* the register visits every nonzero value before it repeats *)
Maximal(p, r) ==
  LET e == FoldLeft(LAMBDA acc, k : IF acc[2] THEN acc ELSE
                       LET q == Step(p, acc[1]) IN <<q, q = r /\ k < Period(p)>>,
                    <<r, FALSE>>, [k \in 1 .. Period(p) |-> k]) IN
  ~e[2] /\ e[1] = r
=============================================================================
