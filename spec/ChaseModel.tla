----------------------------- MODULE ChaseModel -----------------------------
(* Design model of the soft decoder's search: inserting positions into the   *)
(* list of the L least reliable ones, then comparing a stream of candidates  *)
(* (value, metric; -1: decoding failed) with a running best and second best. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, L, MAXMAG, CANDS
Low == -1000
Metric == [w \in -1 .. CANDS-1 |-> IF w = -1 THEN Low ELSE 0]
VARIABLES mag, worst, kk, met, word, best, next, seen
vars == <<mag, worst, kk, met, word, best, next, seen>>
Init == /\ mag \in [0 .. N-1 -> 0 .. MAXMAG] /\ worst = [j \in 0 .. L-1 |-> 0] /\ kk = 0
        /\ met \in [0 .. CANDS-1 -> -2 .. 1] /\ word = -2 /\ best = Low /\ next = Low /\ seen = {}
(* the number of list entries in use that are more unreliable *)
RECURSIVE Slot(_)
Slot(j) == IF j < L /\ j < kk /\ mag[worst[j]] < mag[kk] THEN Slot(j+1) ELSE j
Insert == /\ kk < N
          /\ LET s == Slot(0) IN
             worst' = [j \in 0 .. L-1 |-> IF j < s THEN worst[j] ELSE IF j = s THEN kk ELSE worst[j-1]]
          /\ kk' = kk + 1 /\ UNCHANGED <<mag, met, word, best, next, seen>>
Value(w) == IF w = -1 THEN Low ELSE met[w]
(* the first candidate is the hard decision, failed or not *)
First == /\ kk = N /\ word = -2
         /\ \E w \in -1 .. CANDS-1 : word' = w /\ best' = Value(w) /\ seen' = {w}
         /\ UNCHANGED <<mag, worst, kk, met, next>>
Update == /\ kk = N /\ word # -2
          /\ \E w \in (-1 .. CANDS-1) \ {word} :
               /\ IF Value(w) > best THEN next' = best /\ best' = Value(w) /\ word' = w
                  ELSE /\ next' = IF Value(w) > next THEN Value(w) ELSE next
                       /\ UNCHANGED <<best, word>>
               /\ seen' = seen \cup {w}
          /\ UNCHANGED <<mag, worst, kk, met>>
Next == Insert \/ First \/ Update
Spec == Init /\ [][Next]_vars
Min2(a, b) == IF a < b THEN a ELSE b
Chosen == {worst[j] : j \in 0 .. Min2(kk, L) - 1}
LeastReliable == /\ Cardinality(Chosen) = Min2(kk, L) /\ Chosen \subseteq 0 .. N-1
                 /\ \A x \in Chosen : \A y \in (0 .. kk-1) \ Chosen : mag[x] <= mag[y]
Result == IF best = next THEN -1 ELSE word
Cands == seen \ {-1}
UniqueBest == word # -2 =>
  IF \E w \in Cands : \A v \in Cands \ {w} : met[v] < met[w]
  THEN Result \in Cands /\ \A v \in Cands \ {Result} : met[v] < met[Result]
  ELSE Result = -1
=============================================================================
