------------------------------ MODULE OSLDModel ------------------------------
(* Design model of the list kept by the ordered statistics list decoder:     *)
(* candidates (numbers with a metric) arrive one after another and are       *)
(* inserted into L slots with indirection, scores sorted.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS L, M, V
Low == -100000
VARIABLES met, arrived, score, cperm, slot
vars == <<met, arrived, score, cperm, slot>>
Idx == 1 .. L
Init == /\ met \in [1 .. M -> -V .. V] /\ arrived = 1
        /\ score = [j \in Idx |-> IF j = 1 THEN met[1] ELSE Low]
        /\ cperm = [j \in Idx |-> j] /\ slot = [j \in Idx |-> IF j = 1 THEN 1 ELSE 0]
RECURSIVE Place(_, _)
Place(j, m) == IF j > 1 /\ m > score[j-1] THEN Place(j-1, m) ELSE j
Arrive ==
  /\ arrived < M /\ arrived' = arrived + 1
  /\ LET c == arrived + 1  m == met[c] IN
     IF m <= score[L] THEN UNCHANGED <<score, cperm, slot>>
     ELSE LET pos == cperm[L]  j == Place(L, m) IN
          /\ slot' = [slot EXCEPT ![pos] = c]
          /\ score' = [x \in Idx |-> IF x < j THEN score[x] ELSE IF x = j THEN m ELSE score[x-1]]
          /\ cperm' = [x \in Idx |-> IF x < j THEN cperm[x] ELSE IF x = j THEN pos ELSE cperm[x-1]]
  /\ UNCHANGED met
Spec == Init /\ [][Arrive]_vars
Held == {slot[cperm[j]] : j \in 1 .. (IF arrived < L THEN arrived ELSE L)}
TopL == arrived >= L =>
  /\ Cardinality(Held) = L /\ Held \subseteq 1 .. arrived
  /\ \A j \in Idx : score[j] = met[slot[cperm[j]]]
  /\ \A j \in 2 .. L : score[j-1] >= score[j]
  /\ \A c \in (1 .. arrived) \ Held : \A h \in Held : met[c] <= met[h]
RECURSIVE Rank(_)
Rank(j) == IF j = 1 THEN 0 ELSE Rank(j-1) + (IF score[j-1] # score[j] THEN 1 ELSE 0)
Ranks == arrived >= L => \A j \in Idx : Rank(j) = Cardinality({score[x] : x \in Idx} \cap {s \in -V .. V : s > score[j]})
=============================================================================
