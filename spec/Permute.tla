------------------------------ MODULE Permute ------------------------------
(* The deterministic permutations.  Arrays are sequences; an operator        *)
(* returns the array after the call.                                         *)
EXTENDS Xorshift
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
(* partners of positions 0 .. n-2 drawn by the default 32 bit generator *)
Partners(n) ==
  FoldLeft(LAMBDA acc, i : LET e == Next32(acc[1]) IN <<e[1], Append(acc[2], (i-1) + LMod(e[2], n - (i-1)))>>,
           <<Seed32, <<>>>>, [i \in 1 .. n-1 |-> i])[2]
Shuffle(a, part) == FoldLeft(LAMBDA acc, i : Swap(acc, i, part[i] + 1), a, [i \in 1 .. Len(a)-1 |-> i])
Unshuffle(a, part) == FoldLeft(LAMBDA acc, k : Swap(acc, Len(a) - k, part[Len(a) - k] + 1), a, [k \in 1 .. Len(a)-1 |-> k])
(* where the elements at the (zero based) positions of at are taken *)
Tracked(n, at) ==
  FoldLeft(LAMBDA acc, k : LET e == Next32(acc[1])
                               i == k - 1
                               p == i + LModBig(e[2], n - i) IN
                           <<e[1], TLCEval([j \in 1 .. Len(at) |-> LET x == acc[2][j] IN IF x = i THEN p ELSE IF x = p THEN i ELSE x])>>,
           <<Seed32, at>>, [k \in 1 .. n-1 |-> k])[2]
RECURSIVE Reversed(_, _, _)
Reversed(i, n, acc) == IF n = 1 THEN acc ELSE Reversed(i \div 2, n \div 2, 2*acc + (i % 2))
BitRev(a) == [i \in 1 .. Len(a) |-> a[Reversed(i-1, Len(a), 0) + 1]]
Inter(a, order) == LET len == Len(a) \div order IN [k \in 1 .. Len(a) |-> a[((k-1) \div order) + ((k-1) % order) * len + 1]]
Deinter(a, order) == LET len == Len(a) \div order IN [k \in 1 .. Len(a) |-> a[order * ((k-1) % len) + ((k-1) \div len) + 1]]
=============================================================================
