------------------------------ MODULE ShortBCH ------------------------------
(* Short cyclic codes: words are naturals below 2^N (bit number x is the     *)
(* coefficient of that power), a code is cd = <<N, K, G, T>> with generator  *)
(* polynomial G and correction radius T <= 3.                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Bitwise, TLC
CN(cd) == cd[1]
CK(cd) == cd[2]
CT(cd) == cd[4]
CP(cd) == cd[1] - cd[2]
(* remainders of the powers of x modulo the generator *)
PowerRems(cd) == FoldLeft(LAMBDA acc, xx : LET v == 2 * acc[xx] IN
                            Append(acc, IF v >= 2^CP(cd) THEN v ^^ cd[3] ELSE v),
                          <<1 % (2^CP(cd))>>, [xx \in 1 .. CN(cd) - 1 |-> xx])
(* tables for the codes in use: operators below take tb = Tables(cd) *)
Tables(cd) ==
  LET rems == TLCEval(IF CP(cd) = 0 THEN [xx \in 1 .. CN(cd) |-> 0] ELSE PowerRems(cd))
      inv == TLCEval([xx \in {rems[pp] : pp \in 1 .. CN(cd)} |-> CHOOSE pp \in 1 .. CN(cd) : rems[pp] = xx]) IN
  [cd |-> cd, rems |-> rems,
   pos |-> TLCEval([xx \in 1 .. 2^CP(cd) |-> IF xx - 1 \in DOMAIN inv THEN inv[xx - 1] ELSE 0])]
BitAt(ww, xx) == shiftR(ww, xx) % 2
Rem(tb, ww) == FoldLeft(LAMBDA acc, xx : IF BitAt(ww, xx - 1) = 1 THEN acc ^^ tb.rems[xx] ELSE acc, 0,
                        [xx \in 1 .. CN(tb.cd) |-> xx])
IsWordOf(tb, ww) == ww \in Int /\ ww >= 0 /\ IF CN(tb.cd) = 31 THEN TRUE ELSE ww < 2^CN(tb.cd)
IsCodeword(tb, ww) == IsWordOf(tb, ww) /\ Rem(tb, ww) = 0
Encode(tb, msg) == LET sh == msg * 2^CP(tb.cd) IN sh + Rem(tb, sh)
(* the error pattern of weight 1..T with syndrome ss # 0; -1 if there is none *)
Pattern(tb, ss) ==
  IF tb.pos[ss + 1] > 0 THEN 2^(tb.pos[ss + 1] - 1)
  ELSE IF CT(tb.cd) < 2 THEN -1
  ELSE LET two == {pp \in 1 .. CN(tb.cd) : tb.pos[(ss ^^ tb.rems[pp]) + 1] > pp} IN
    IF two # {} THEN LET pp == CHOOSE y \in two : TRUE IN
      2^(pp - 1) + 2^(tb.pos[(ss ^^ tb.rems[pp]) + 1] - 1)
    ELSE IF CT(tb.cd) < 3 THEN -1
    ELSE LET three == {pq \in (1 .. CN(tb.cd)) \X (1 .. CN(tb.cd)) :
                         pq[1] < pq[2] /\ tb.pos[((ss ^^ tb.rems[pq[1]]) ^^ tb.rems[pq[2]]) + 1] > pq[2]} IN
      IF three # {} THEN LET pq == CHOOSE y \in three : TRUE IN
        2^(pq[1] - 1) + 2^(pq[2] - 1) + 2^(tb.pos[((ss ^^ tb.rems[pq[1]]) ^^ tb.rems[pq[2]]) + 1] - 1)
      ELSE -1
(* bounded distance decoding *)
Hard(tb, ww) == LET ss == TLCEval(Rem(tb, ww)) IN
  IF ss = 0 THEN ww ELSE LET pat == TLCEval(Pattern(tb, ss)) IN IF pat < 0 THEN -1 ELSE ww ^^ pat
(* soft values, sequence of N *)
Mag(v) == IF v < 0 THEN -v ELSE v
HardBits(soft) == FoldLeft(LAMBDA acc, xx : IF soft[xx] < 0 THEN acc + 2^(xx - 1) ELSE acc, 0, [xx \in 1 .. Len(soft) |-> xx])
Corr(soft, ww) == FoldLeft(LAMBDA acc, xx : IF BitAt(ww, xx - 1) = 1 THEN acc - soft[xx] ELSE acc + soft[xx], 0,
                           [xx \in 1 .. Len(soft) |-> xx])
(* the one candidate of largest correlation, -1 if there is no such one *)
Winner(soft, cands) ==
  IF cands = {} THEN -1 ELSE
  LET cor == TLCEval([ww \in cands |-> Corr(soft, ww)])
      mx == TLCEval(Max({cor[ww] : ww \in cands}))
      top == TLCEval({ww \in cands : cor[ww] = mx}) IN
  IF Cardinality(top) = 1 THEN CHOOSE ww \in top : TRUE ELSE -1
(* sets of T positions none of which is more reliable than one left out *)
Forced(soft, num) == LET th == TLCEval(SortSeq([xx \in 1 .. Len(soft) |-> Mag(soft[xx])], <)[num]) IN
  [must |-> {xx \in 1 .. Len(soft) : Mag(soft[xx]) < th}, may |-> {xx \in 1 .. Len(soft) : Mag(soft[xx]) = th}]
LeastSets(soft, num) == LET fo == TLCEval(Forced(soft, num)) IN
  {fo.must \cup yy : yy \in kSubset(num - Cardinality(fo.must), fo.may)}
Flips(ss) == {FoldSet(LAMBDA xx, acc : acc + 2^(xx - 1), 0, yy) : yy \in SUBSET ss}
Chase(tb, soft, ss) == LET hb == TLCEval(HardBits(soft)) IN
  Winner(soft, TLCEval({Hard(tb, hb ^^ fl) : fl \in Flips(ss)} \ {-1}))
AllWords(tb) == {Encode(tb, msg) : msg \in 0 .. 2^CK(tb.cd) - 1}
SoftOK(tb, soft, ret) ==
  IF CK(tb.cd) <= 4 THEN ret = Winner(soft, AllWords(tb))
  ELSE LET fo == TLCEval(Forced(soft, CT(tb.cd)))
           r == CT(tb.cd) - Cardinality(fo.must) m == Cardinality(fo.may) IN
    IF r = m \/ m <= 4 THEN \E ss \in LeastSets(soft, CT(tb.cd)) : Chase(tb, soft, ss) = ret
    ELSE \* too many equally unreliable positions to try all choices
      ret = -1 \/ (IsCodeword(tb, ret) /\
                   LET hd == Hard(tb, HardBits(soft)) IN hd = -1 \/ hd = ret \/ Corr(soft, ret) > Corr(soft, hd))
=============================================================================
