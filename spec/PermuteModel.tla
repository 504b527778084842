---------------------------- MODULE PermuteModel ----------------------------
(* Design model: exchanging with any partner drawn from the rest of the      *)
(* array is undone by the reversed exchanges; the bit reversal walk with a   *)
(* carry propagating from the top equals reversing the index bits; both      *)
(* interleavers are inverse bijections.                                      *)
EXTENDS Permute, FiniteSets
CONSTANTS MAXN
VARIABLES n, a, hist, i, pc, j, b
vars == <<n, a, hist, i, pc, j, b>>
Id(k) == [x \in 1 .. k |-> x]
IsPow2(k) == \E e \in 0 .. 6 : k = 2^e
Init == n \in 1 .. MAXN /\ a = Id(n) /\ hist = <<>> /\ i = 0 /\ pc = "shuffle" /\ j = 0 /\ b = Id(n)
Exchange == /\ pc = "shuffle" /\ i < n - 1
            /\ \E r \in 0 .. n - 1 - i : a' = Swap(a, i+1, i+r+1) /\ hist' = Append(hist, i+r)
            /\ i' = i + 1 /\ UNCHANGED <<n, pc, j, b>>
Turn == pc = "shuffle" /\ i >= n - 1 /\ pc' = "unshuffle" /\ i' = n - 2 /\ UNCHANGED <<n, a, hist, j, b>>
Back == /\ pc = "unshuffle" /\ i >= 0
        /\ a' = Swap(a, i+1, hist[i+1] + 1) /\ i' = i - 1 /\ UNCHANGED <<n, hist, pc, j, b>>
EndBack == pc = "unshuffle" /\ i < 0 /\ pc' = (IF IsPow2(n) THEN "rev" ELSE "done") /\ i' = 0 /\ UNCHANGED <<n, a, hist, j, b>>
RECURSIVE Carry(_, _)
Carry(x, k) == IF k > 0 /\ (x \div k) % 2 = 1 THEN Carry(x - k, k \div 2) ELSE x + k
Rev == /\ pc = "rev" /\ i < n - 1
       /\ b' = IF i < j THEN Swap(b, i+1, j+1) ELSE b
       /\ j' = Carry(j, n \div 2) /\ i' = i + 1 /\ UNCHANGED <<n, a, hist, pc>>
EndRev == pc = "rev" /\ i >= n - 1 /\ pc' = "done" /\ UNCHANGED <<n, a, hist, i, j, b>>
Next == Exchange \/ Turn \/ Back \/ EndBack \/ Rev \/ EndRev
Spec == Init /\ [][Next]_vars
Perm(x) == {x[k] : k \in 1 .. Len(x)} = 1 .. Len(x)
AlwaysPermutation == Perm(a) /\ Perm(b)
Restored == pc \in {"rev", "done"} => a = Id(n)
Reversal == pc = "done" /\ IsPow2(n) => b = BitRev(Id(n)) /\ BitRev(b) = Id(n)
Interleaving == \A o \in 1 .. n : n % o = 0 => /\ Perm(Inter(Id(n), o))
                                              /\ Deinter(Inter(Id(n), o), o) = Id(n)
                                              /\ Inter(Deinter(Id(n), o), o) = Id(n)
=============================================================================
