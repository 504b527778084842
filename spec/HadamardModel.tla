---------------------------- MODULE HadamardModel ----------------------------
(* Design model: the fast transform by stages of butterflies and the running *)
(* best/next scan give the maximum likelihood message or notice the tie, for *)
(* both codes and every soft input over a small alphabet.                    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
CONSTANTS MAXK, AMP
VARIABLES kind, kk, soft, tr, h, scan, word, best, next
vars == <<kind, kk, soft, tr, h, scan, word, best, next>>
RECURSIVE Par(_)
Par(v) == IF v = 0 THEN 0 ELSE ((v % 2) + Par(v \div 2)) % 2
Size == IF kind = "had" THEN 2^(kk-1) ELSE 2^kk          \* transform length
Len0(c, m) == IF c = "had" THEN 2^(m-1) ELSE 2^m - 1
Codeword(msg, x) == 1 - 2*Par(msg & (IF kind = "had" THEN x + 2^(kk-1) ELSE x + 1))
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n-1) + Sum(F, n-1)
Corr(msg) == Sum(LAMBDA x : soft[x] * Codeword(msg, x), Len0(kind, kk))
Init == /\ kind \in {"had", "sim"} /\ kk \in 1 .. MAXK
        /\ soft \in [0 .. Len0(kind, kk) - 1 -> (-AMP) .. AMP]
        \* the simplex transform gets a zero in front
        /\ tr = IF kind = "had" THEN soft ELSE [x \in 0 .. 2^kk - 1 |-> IF x = 0 THEN 0 ELSE soft[x-1]]
        /\ h = 1 /\ scan = 0 /\ word = 0 /\ best = 0 /\ next = 0
Stage == /\ h < Size
         /\ tr' = [x \in 0 .. Size-1 |-> IF (x \div h) % 2 = 0 THEN tr[x] + tr[x+h] ELSE tr[x-h] - tr[x]]
         /\ h' = 2*h /\ UNCHANGED <<kind, kk, soft, scan, word, best, next>>
Abs(x) == IF x < 0 THEN -x ELSE x
Scan == /\ h = Size /\ scan < Size
        /\ LET mag == IF kind = "had" THEN Abs(tr[scan]) ELSE tr[scan]
               msg == IF kind = "had" /\ tr[scan] < 0 THEN scan + Size ELSE scan IN
           IF mag > best THEN next' = best /\ best' = mag /\ word' = msg
           ELSE /\ next' = IF mag > next THEN mag ELSE next
                /\ UNCHANGED <<best, word>>
        /\ scan' = scan + 1 /\ UNCHANGED <<kind, kk, soft, tr, h>>
Next == Stage \/ Scan
Spec == Init /\ [][Next]_vars
Result == IF best = next THEN -1 ELSE word
MaximumLikelihood ==
  scan = Size => IF Result >= 0 THEN \A m \in 0 .. 2^kk - 1 : m # Result => Corr(m) < Corr(Result)
                 ELSE \E m1, m2 \in 0 .. 2^kk - 1 : m1 # m2 /\ Corr(m1) = Corr(m2) /\ \A m \in 0 .. 2^kk - 1 : Corr(m) <= Corr(m1)
=============================================================================
