----------------------------- MODULE ReduceModel -----------------------------
(* Design model of exclusive_reduce.hh with sets of input indices: the       *)
(* prefix pass and the suffix pass as loops.  Every output ends up with      *)
(* every index but its own, each combined once.                              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT MAXN
VARIABLES n, out, pre, suf, i, pc
vars == <<n, out, pre, suf, i, pc>>
Init == n \in 2 .. MAXN /\ out = [k \in 0 .. n-1 |-> {}] /\ pre = {0} /\ suf = {} /\ i = 1 /\ pc = "pre"
Pre == /\ pc = "pre" /\ i < n - 1
       /\ out' = [out EXCEPT ![i] = pre] /\ pre' = pre \cup {i} /\ i' = i + 1 /\ UNCHANGED <<n, suf, pc>>
Mid == /\ pc = "pre" /\ i >= n - 1
       /\ out' = [out EXCEPT ![n-1] = pre] /\ suf' = {n-1} /\ i' = n - 2 /\ pc' = "suf" /\ UNCHANGED <<n, pre>>
Suf == /\ pc = "suf" /\ i > 0
       /\ out[i] \cap suf = {}
       /\ out' = [out EXCEPT ![i] = @ \cup suf] /\ suf' = suf \cup {i} /\ i' = i - 1 /\ UNCHANGED <<n, pre, pc>>
End == pc = "suf" /\ i = 0 /\ out' = [out EXCEPT ![0] = suf] /\ pc' = "done" /\ UNCHANGED <<n, pre, suf, i>>
Next == Pre \/ Mid \/ Suf \/ End
Spec == Init /\ [][Next]_vars
AllButOne == pc = "done" => \A k \in 0 .. n-1 : out[k] = (0 .. n-1) \ {k}
NoRepeat == pc = "suf" /\ i > 0 => out[i] \cap suf = {}
=============================================================================
