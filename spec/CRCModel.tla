------------------------------ MODULE CRCModel ------------------------------
(* Design model of crc.hh with a register of W bits and table lookups of S   *)
(* bits (S <= W): updates by symbols through the table, mixed with single    *)
(* bits, keep the register equal to the plain shift register's, whose value  *)
(* is linear in (start, message); a register fed its own value is zero.      *)
EXTENDS Integers, Bitwise, Sequences, TLC
CONSTANTS W, S, DEPTH
VARIABLES poly, table, fast, slow, steps
vars == <<poly, table, fast, slow, steps>>
Step(r, b) == LET t == r ^^ b IN shiftR(r, 1) ^^ (IF t % 2 = 1 THEN poly ELSE 0)
RECURSIVE Steps(_, _, _)
Steps(r, d, n) == IF n = 0 THEN r ELSE Steps(Step(r, d % 2), d \div 2, n-1)
RECURSIVE Lut(_, _, _)
Lut(p, r, n) == IF n = 0 THEN r ELSE Lut(p, shiftR(r, 1) ^^ (IF r % 2 = 1 THEN p ELSE 0), n-1)
Init == /\ poly \in 0 .. 2^W - 1 /\ fast \in 0 .. 2^W - 1 /\ slow = fast /\ steps = 0
        /\ table = [j \in 0 .. 2^S - 1 |-> Lut(poly, j, S)]
PutBit(b) == fast' = Step(fast, b) /\ slow' = Step(slow, b)
PutSym(d) == /\ fast' = shiftR(fast, S) ^^ table[(fast ^^ d) % 2^S]
             /\ slow' = Steps(slow, d, S)
Next == /\ steps < DEPTH /\ steps' = steps + 1 /\ UNCHANGED <<poly, table>>
        /\ \/ \E b \in {0, 1} : PutBit(b)
           \/ \E d \in 0 .. 2^S - 1 : PutSym(d)
Spec == Init /\ [][Next]_vars
Agree == fast = slow /\ fast \in 0 .. 2^W - 1
Linear == \A d \in 0 .. 2^S - 1 : Steps(slow, d, S) = Steps(slow, 0, S) ^^ Steps(0, d, S)
SelfCheck == Steps(slow, slow, W) = 0
=============================================================================
