------------------------------ MODULE PolarCode ------------------------------
(* Construction of polar codes over the erasure channel: position i of a     *)
(* code of length 2^level sees an erasure probability that follows from the  *)
(* bits of i, most significant first: 0 degrades p to p(2-p), 1 improves it  *)
(* to p*p.  Probabilities are floating point numbers of four 14 bit limbs,   *)
(* most significant first: 0.m * 2^e.  x: nothing has been rounded so far,   *)
(* and nothing would be with 52 bits either.                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
LB == 16384
PZero == [m |-> <<0, 0, 0, 0>>, e |-> -1000000, x |-> TRUE]
IsProb(p) == /\ Len(p.m) = 4 /\ \A k \in 1 .. 4 : p.m[k] \in 0 .. LB - 1
             /\ (p.m[1] >= 8192 \/ p = PZero)
             /\ p.e <= 1 /\ (p.e = 1 => p.m = <<8192, 0, 0, 0>>)
PNum(m, e) == IF m = <<0, 0, 0, 0>> THEN PZero ELSE [m |-> m, e |-> e, x |-> (m[4] % 16) = 0]
(* product of two mantissas: eight limbs *)
MulM(a, b) ==
  FoldLeft(LAMBDA st, k :    \* <<carry, limbs from the least significant>>
      LET c == st[1] + FoldLeft(LAMBDA s, i : IF k - i \in 1 .. 4 THEN s + a[i] * b[k - i] ELSE s, 0, <<1, 2, 3, 4>>)
      IN <<c \div LB, <<(c % LB)>> \o st[2]>>,
    <<0, <<>>>>, <<8, 7, 6, 5, 4, 3, 2>>)
PMul(a, b) ==
  IF a.m[1] = 0 \/ b.m[1] = 0 THEN PZero
  ELSE LET r == MulM(a.m, b.m)
           w == TLCEval(<<r[1]>> \o r[2])      \* eight limbs
           up == w[1] < 8192
           s == TLCEval(IF up THEN [k \in 1 .. 8 |-> ((2 * w[k]) % LB) + (IF k < 8 THEN w[k + 1] \div 8192 ELSE 0)] ELSE w)
       IN [m |-> <<s[1], s[2], s[3], s[4]>>, e |-> a.e + b.e - (IF up THEN 1 ELSE 0),
           x |-> a.x /\ b.x /\ s[5] = 0 /\ s[6] = 0 /\ s[7] = 0 /\ s[8] = 0 /\ (s[4] % 16) = 0]
(* mantissa moved right *)
Shr1(m) == [k \in 1 .. 4 |-> m[k] \div 2 + (IF k > 1 THEN (m[k - 1] % 2) * 8192 ELSE 0)]
RECURSIVE ShrM(_, _)
ShrM(m, n) == IF n = 0 THEN m ELSE IF n > 56 THEN <<0, 0, 0, 0>>
              ELSE IF n >= 14 THEN ShrM(<<0, m[1], m[2], m[3]>>, n - 14) ELSE ShrM(TLCEval(Shr1(m)), n - 1)
RECURSIVE LostM(_, _)
LostM(m, n) == IF n = 0 THEN FALSE ELSE IF n > 56 THEN TRUE
               ELSE IF n >= 14 THEN m[4] # 0 \/ LostM(<<0, m[1], m[2], m[3]>>, n - 14) ELSE (m[4] % 2) = 1 \/ LostM(TLCEval(Shr1(m)), n - 1)
(* 2 - p *)
TwoMinus(p) ==
  LET s == TLCEval(ShrM(p.m, 1 - p.e))
      d == FoldLeft(LAMBDA st, k : LET t == 0 - s[k] - st[1] IN <<IF t < 0 THEN 1 ELSE 0, <<(IF t < 0 THEN t + LB ELSE t)>> \o st[2]>>,
                    <<0, <<>>>>, <<4, 3, 2, 1>>)[2]
      x == p = PZero \/ (p.x /\ ~LostM(p.m, 1 - p.e) /\ (d[4] % 16) = 0)
  IN IF s = <<0, 0, 0, 0>> THEN [m |-> <<8192, 0, 0, 0>>, e |-> 2, x |-> x] ELSE [m |-> d, e |-> 1, x |-> x]
Worse(p) == TLCEval(PMul(p, TwoMinus(p)))
Better(p) == TLCEval(PMul(p, p))
(* all positions, in order *)
RECURSIVE Channels(_, _)
Channels(p, level) == IF level = 0 THEN <<p>> ELSE TLCEval(Channels(Worse(p), level - 1) \o Channels(Better(p), level - 1))
(* a > b, beyond doubt about rounding; exact numbers are compared exactly *)
Exceeds(a, b) ==
  IF a.m[1] = 0 \/ a.e < b.e THEN FALSE
  ELSE LET c == IF a.e - b.e > 2 THEN <<0, 0, 0, 0>> ELSE ShrM(b.m, a.e - b.e)
           top == (a.m[1] - c[1]) * LB + a.m[2] - c[2]
       IN IF a.x /\ b.x /\ a.e - b.e <= 1
          THEN \E k \in 1 .. 4 : a.m[k] > c[k] /\ \A j \in 1 .. k - 1 : a.m[j] = c[j]
          ELSE a.e > -900 /\ (top > 7 \/ (top >= -7 /\ top * LB + a.m[3] - c[3] > 16))
(* ---- what the constructions promise ---- *)
Count(fz, v) == FoldLeft(LAMBDA acc, y : IF y = v THEN acc + 1 ELSE acc, 0, fz)
(* positions above the threshold, and no others; the number of free ones *)
ThresholdOK(ch, th, fz, k) ==
  /\ k = Count(fz, 0)
  /\ \A x \in 1 .. Len(fz) : (Exceeds(ch[x], th) => fz[x] = 1) /\ (Exceeds(th, ch[x]) => fz[x] = 0)
  /\ \A x \in 1 .. Len(fz) : ch[x].x /\ th.x /\ ch[x] = th => fz[x] = 0
(* K free positions, none of them worse than a frozen one *)
LargestOf(ch, which) == FoldLeft(LAMBDA acc, x : IF which[x] = 0 /\ (acc = 0 \/ Exceeds(ch[x], ch[acc])) THEN x ELSE acc, 0, [x \in 1 .. Len(ch) |-> x])
BestOK(ch, fz, k) ==
  /\ Count(fz, 0) = k /\ Count(fz, 1) = Len(fz) - k
  /\ \E w \in {LargestOf(ch, fz)} : w > 0 => \A x \in 1 .. Len(fz) : fz[x] = 1 => ~Exceeds(ch[w], ch[x])
(* all positions, least reliable first *)
SequenceOK(ch, sq) ==
  /\ Len(sq) = Len(ch) /\ {sq[k] : k \in 1 .. Len(sq)} = 0 .. Len(ch) - 1
  /\ FoldLeft(LAMBDA st, k :    \* <<no disorder so far, position of the smallest so far>>
        LET v == sq[k] + 1 IN
        IF ~st[1] THEN st
        ELSE IF st[2] = 0 THEN <<TRUE, v>>
        ELSE IF Exceeds(ch[v], ch[st[2]]) THEN <<FALSE, 0>>
        ELSE IF Exceeds(ch[st[2]], ch[v]) THEN <<TRUE, v>> ELSE st,
      <<TRUE, 0>>, [k \in 1 .. Len(sq) |-> k])[1]
=============================================================================
