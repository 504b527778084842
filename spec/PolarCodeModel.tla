--------------------------- MODULE PolarCodeModel ---------------------------
(* The construction as a machine that splits one channel at a time, from the *)
(* whole code down to its positions, with exact fractions beside the limbs.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Bitwise, TLC
CONSTANTS DEN, MAXL     \* p = a / 2^DEN, levels up to MAXL (DEN * 2^MAXL <= 30)
PC == INSTANCE PolarCode
VARIABLES a, level, depth, chs, fracs
vars == <<a, level, depth, chs, fracs>>
(* a / 2^d as limbs, a < 2^28 *)
RECURSIVE Norm(_, _)
Norm(n, e) == IF n >= 2^27 THEN <<n, e>> ELSE Norm(2 * n, e - 1)
Limb(n, d) == IF n = 0 THEN PC!PZero ELSE LET r == Norm(n, 28 - d) IN
  PC!PNum(<<r[1] \div 16384, r[1] % 16384, 0, 0>>, r[2])
Init == /\ level \in 0 .. MAXL /\ a \in 0 .. 2^DEN /\ depth = 0
        /\ chs = <<Limb(a, DEN)>> /\ fracs = <<a>>
(* fractions at depth d are over 2^(DEN * 2^d) *)
One(d) == 2^(DEN * 2^d)
Split == /\ depth < level /\ depth' = depth + 1
         /\ chs' = FoldLeft(LAMBDA s, p : s \o <<PC!Worse(p), PC!Better(p)>>, <<>>, chs)
         /\ fracs' = FoldLeft(LAMBDA s, n : s \o <<n * (2 * One(depth) - n), n * n>>, <<>>, fracs)
         /\ UNCHANGED <<a, level>>
Next == Split
Spec == Init /\ [][Next]_vars
(* ---- *)
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Done == depth = level
(* nothing is gained or lost by splitting *)
Conserved == \A d \in {depth} : Sum([x \in 1 .. Len(fracs) |-> fracs[x]]) =
   (IF d = 0 THEN a ELSE 2^d * a * (2^(DEN * (2^d - 1))))
Same == \A x \in 1 .. Len(fracs) : \E q \in {Limb(fracs[x], DEN * 2^depth)} :
          chs[x].m = q.m /\ (q.m[1] > 0 => chs[x].e = q.e) /\ chs[x].x
Recursion == Done => chs = PC!Channels(Limb(a, DEN), level)
OrderExact == \A x \in 1 .. Len(fracs), y \in 1 .. Len(fracs) : PC!Exceeds(chs[x], chs[y]) <=> fracs[x] > fracs[y]
(* more one bits, never worse *)
Dominates(x, y) == (x & y) = y
Dominance == \A x \in 0 .. Len(fracs) - 1, y \in 0 .. Len(fracs) - 1 :
   Dominates(x, y) => fracs[x + 1] <= fracs[y + 1] /\ (x # y /\ 0 < a /\ a < 2^DEN => fracs[x + 1] < fracs[y + 1])
Vectors(n) == [1 .. n -> {0, 1}]
(* every selection that passes is closed upwards, so that the systematic encoder works for it *)
UpSets == Done /\ 0 < a /\ a < 2^DEN =>
   \A f \in Vectors(Len(fracs)) : PC!BestOK(chs, f, PC!Count(f, 0)) =>
      \A x \in 1 .. Len(fracs), y \in 1 .. Len(fracs) : f[y] = 0 /\ Dominates(x - 1, y - 1) => f[x] = 0
(* every size has one, thresholds give such selections, prefixes of sequences are complements of such *)
Possible == Done => \A k \in 0 .. Len(fracs) : \E f \in Vectors(Len(fracs)) : PC!BestOK(chs, f, k)
Thresholds == Done => \A x \in 1 .. Len(fracs) : \E f \in {[y \in 1 .. Len(fracs) |-> IF fracs[y] > fracs[x] THEN 1 ELSE 0]} :
   PC!ThresholdOK(chs, chs[x], f, PC!Count(f, 0)) /\ PC!BestOK(chs, f, PC!Count(f, 0))
Sorted == SetToSortSeq(1 .. Len(fracs), LAMBDA x, y : fracs[x] > fracs[y] \/ (fracs[x] = fracs[y] /\ x < y))
Sequences == Done => \E s \in {Sorted} :
   /\ PC!SequenceOK(chs, [k \in 1 .. Len(s) |-> s[k] - 1])
   /\ \A k \in 0 .. Len(s) : PC!BestOK(chs, [y \in 1 .. Len(s) |-> IF \E j \in 1 .. k : s[j] = y THEN 1 ELSE 0], Len(s) - k)
   /\ (Len(s) > 1 /\ 0 < a /\ a < 2^DEN => ~PC!SequenceOK(chs, [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k] - 1]))
=============================================================================
