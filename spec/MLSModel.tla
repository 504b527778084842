------------------------------ MODULE MLSModel ------------------------------
(* Design model of mls.hh: the period test as a loop; its verdict equals     *)
(* "the orbit of the start has all nonzero values" computed as a set.        *)
EXTENDS MLS, FiniteSets
CONSTANT MAXDEG
VARIABLES poly, start, reg, i, seen, verdict
vars == <<poly, start, reg, i, seen, verdict>>
Init == /\ poly \in 2 .. 2^(MAXDEG+1) - 1 /\ start \in 1 .. 2^Deg(poly) - 1
        /\ reg = start /\ i = 1 /\ seen = {start} /\ verdict = "run"
Loop == /\ verdict = "run" /\ i < Period(poly)
        /\ reg' = Step(poly, reg) /\ i' = i + 1 /\ seen' = seen \cup {reg'}
        /\ verdict' = IF reg' = start THEN "bad" ELSE "run"
        /\ UNCHANGED <<poly, start>>
LastStep == /\ verdict = "run" /\ i = Period(poly)
        /\ reg' = Step(poly, reg) /\ i' = i + 1 /\ seen' = seen \cup {reg'}
        /\ verdict' = (IF reg' = start THEN "good" ELSE "bad") /\ UNCHANGED <<poly, start>>
Next == Loop \/ LastStep
Spec == Init /\ [][Next]_vars
InRange == reg \in 0 .. 2^Deg(poly) - 1
Verdict == verdict # "run" => (verdict = "good") = (seen = 1 .. 2^Deg(poly) - 1 /\ reg = start)
SameAsMaximal == verdict # "run" => (verdict = "good") = Maximal(poly, start)
=============================================================================
