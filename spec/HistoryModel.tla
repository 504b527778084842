---------------------------- MODULE HistoryModel -----------------------------
(* Which histories are enough: every object with S inner states, I inputs    *)
(* and O answers.  It is asked word after word, each time starting as a      *)
(* fresh object, and the answers are compared with those known so far, as    *)
(* HistoryTrace does.  An object whose answers depend on what it was asked   *)
(* before is noticed by words of length S, an object whose answers do not is *)
(* never suspected.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S, I, O
VARIABLES next, answer,          \* the object: inner state and answer for each state and input
          at, len, memo, noticed
vars == <<next, answer, at, len, memo, noticed>>
RECURSIVE Reach(_, _, _)
Reach(nx, set, k) == IF k = 0 THEN set ELSE Reach(nx, set \union {nx[<<s, i>>] : s \in set, i \in 1 .. I}, k - 1)
Depends(nx, an) == LET r == Reach(nx, {1}, S) IN \E s, t \in r : \E i \in 1 .. I : an[<<s, i>>] # an[<<t, i>>]
Words(k) == [1 .. k -> 1 .. I]
RECURSIVE Run(_, _, _, _)
(* answers along a word *)
Run(nx, an, w, s) == IF w = <<>> THEN <<>> ELSE <<an[<<s, w[1]>>]>> \o Run(nx, an, Tail(w), nx[<<s, w[1]>>])
Exposed(nx, an, k) == \E w \in Words(k) : LET r == Run(nx, an, w, 1) IN \E j \in 1 .. k : r[j] # an[<<1, w[j]>>]
Init == /\ next \in [(1 .. S) \X (1 .. I) -> 1 .. S]
        /\ answer \in [(1 .. S) \X (1 .. I) -> 1 .. O]
        /\ at = 1 /\ len = 0 /\ noticed = FALSE
        /\ memo = [i \in 1 .. I |-> 0]
Call(i) ==
  /\ len < S
  /\ memo' = IF memo[i] = 0 THEN [memo EXCEPT ![i] = answer[<<at, i>>]] ELSE memo
  /\ noticed' = (noticed \/ (memo[i] # 0 /\ memo[i] # answer[<<at, i>>]))
  /\ at' = next[<<at, i>>] /\ len' = len + 1
  /\ UNCHANGED <<next, answer>>
Fresh == len > 0 /\ at' = 1 /\ len' = 0 /\ UNCHANGED <<next, answer, memo, noticed>>
Next == Fresh \/ \E i \in 1 .. I : Call(i)
Spec == Init /\ [][Next]_vars
NoFalseAlarm == noticed => Depends(next, answer)
Enough == len = 0 => (Depends(next, answer) <=> Exposed(next, answer, S))
(* words one shorter would not do *)
ASSUME S < 2 \/ \E nx \in [(1 .. S) \X (1 .. I) -> 1 .. S] : \E an \in [(1 .. S) \X (1 .. I) -> 1 .. O] :
         Depends(nx, an) /\ ~Exposed(nx, an, S - 1)
=============================================================================
