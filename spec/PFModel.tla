------------------------------- MODULE PFModel -------------------------------
(* Design model of prime_field.hh: the square and multiply loop as a state   *)
(* machine; reciprocals by Fermat; lazy sums of residues.                    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT PRIMES
VARIABLES P, a0, m0, a, m, t
vars == <<P, a0, m0, a, m, t>>
RECURSIVE Power(_, _, _)
Power(x, n, q) == IF n = 0 THEN 1 % q ELSE (x * Power(x, n-1, q)) % q
Init == /\ P \in PRIMES /\ a0 \in 0 .. P-1 /\ m0 \in 0 .. 2*P
        /\ a = a0 /\ m = m0 /\ t = 1
Next == /\ m > 0
        /\ t' = IF m % 2 = 1 THEN (t * a) % P ELSE t
        /\ a' = (a * a) % P /\ m' = m \div 2 /\ UNCHANGED <<P, a0, m0>>
Spec == Init /\ [][Next]_vars
LoopInvariant == (t * Power(a, m, P)) % P = Power(a0, m0, P)
Result == m = 0 => t = Power(a0, m0, P)
Fermat == m = 0 /\ m0 = P - 2 /\ a0 # 0 => (t * a0) % P = 1
=============================================================================
