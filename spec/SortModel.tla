------------------------------ MODULE SortModel ------------------------------
(* Design model of sort.hh: insertion sort of runs of M elements, then       *)
(* bottom-up merging that prefers the left run, element by element; every    *)
(* array of up to MAXN elements over KEYS keys.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MAXN, KEYS, M
VARIABLES keys, a, pc, i, len, ii, jj, k, tmp
vars == <<keys, a, pc, i, len, ii, jj, k, tmp>>
n == Len(keys)
Key(x) == keys[x]
Init == /\ keys \in UNION {[1 .. m -> 1 .. KEYS] : m \in 0 .. MAXN}
        /\ a = [x \in 1 .. Len(keys) |-> x]
        /\ pc = "insert" /\ i = 0 /\ len = M /\ ii = 0 /\ jj = 0 /\ k = 0 /\ tmp = a
(* inserting the element at i (zero based) into its run *)
Place(x, lo, hi) == \* number of elements of the run before hi that stay in front of x
  CHOOSE p \in lo .. hi : /\ \A q \in lo+1 .. p : TRUE
                          /\ (p > lo => ~(Key(x) < Key(a[p])))
                          /\ \A q \in p+1 .. hi : Key(x) < Key(a[q])
Insert ==
  /\ pc = "insert" /\ i < n
  /\ LET lo == (i \div M) * M
         x == a[i+1]
         p == Place(x, lo, i) IN
     a' = [q \in 1 .. n |-> IF q <= p \/ q > i+1 THEN a[q] ELSE IF q = p+1 THEN x ELSE a[q-1]]
  /\ i' = i + 1 /\ UNCHANGED <<keys, pc, len, ii, jj, k, tmp>>
Min(x, y) == IF x < y THEN x ELSE y
StartMerge ==
  /\ (pc = "insert" /\ i >= n) \/ pc = "copied"
  /\ IF len < n THEN pc' = "merge" /\ i' = 0 /\ k' = 0 /\ ii' = 0 /\ jj' = Min(len, n)
     ELSE pc' = "done" /\ UNCHANGED <<i, k, ii, jj>>
  /\ UNCHANGED <<keys, a, len, tmp>>
right == Min(i + len, n)
end == Min(i + 2*len, n)
MergeOne ==
  /\ pc = "merge" /\ k < end
  /\ IF ii >= right \/ (jj < end /\ Key(a[jj+1]) < Key(a[ii+1]))
     THEN tmp' = [tmp EXCEPT ![k+1] = a[jj+1]] /\ jj' = jj + 1 /\ UNCHANGED ii
     ELSE tmp' = [tmp EXCEPT ![k+1] = a[ii+1]] /\ ii' = ii + 1 /\ UNCHANGED jj
  /\ k' = k + 1 /\ UNCHANGED <<keys, a, pc, i, len>>
NextRuns ==
  /\ pc = "merge" /\ k >= end
  /\ IF i + 2*len < n
     THEN i' = i + 2*len /\ ii' = i' /\ jj' = Min(i' + len, n) /\ UNCHANGED <<pc, a, len>>
     ELSE pc' = "copied" /\ a' = tmp /\ len' = 2*len /\ UNCHANGED <<i, ii, jj>>
  /\ UNCHANGED <<keys, k, tmp>>
Next == Insert \/ StartMerge \/ MergeOne \/ NextRuns
Spec == Init /\ [][Next]_vars
Permutation == {a[x] : x \in 1 .. n} = 1 .. n
StableSorted == pc = "done" => \A x \in 1 .. n-1 : Key(a[x]) < Key(a[x+1]) \/ (Key(a[x]) = Key(a[x+1]) /\ a[x] < a[x+1])
=============================================================================
