-------------------------------- MODULE OSD --------------------------------
(* Ordered statistics decoding from its definition.  A generator matrix is a *)
(* sequence of rows, a row or word a sequence of bits; positions are 1..n.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
XorW(u, v) == [p \in 1 .. Len(u) |-> (u[p] + v[p]) % 2]
ZeroW(nn) == [p \in 1 .. nn |-> 0]
Clip(s) == IF s < -127 THEN -127 ELSE s
AbsV(s) == IF s < 0 THEN -s ELSE s
Rel(s) == AbsV(Clip(s))
HardBit(s) == IF s < 0 THEN 1 ELSE 0
Corr(c, soft) == FoldLeft(LAMBDA acc, p : acc + (1 - 2 * c[p]) * Clip(soft[p]), 0, [p \in 1 .. Len(soft) |-> p])
(* message times matrix *)
Times(m, G) == FoldLeft(LAMBDA acc, j : IF m[j] = 1 THEN XorW(acc, G[j]) ELSE acc, ZeroW(Len(G[1])), [j \in 1 .. Len(G) |-> j])
(* positions by descending reliability, the earlier one first among equals *)
ByReliability(soft) == SortSeq([p \in 1 .. Len(soft) |-> p],
  LAMBDA a, b : Rel(soft[a]) > Rel(soft[b]) \/ (Rel(soft[a]) = Rel(soft[b]) /\ a < b))
(* Gauss-Jordan elimination visiting the columns in the given order:         *)
(* <<rows, pivots>>; row j is the one with a one at pivots[j] only           *)
Reduce(G, order) ==
  FoldLeft(LAMBDA acc, p :
      IF Len(acc[2]) = Len(G) THEN acc ELSE
      LET cands == {j \in Len(acc[2]) + 1 .. Len(G) : acc[1][j][p] = 1} IN
      IF cands = {} THEN acc ELSE
      LET j == CHOOSE x \in cands : TRUE
          k == Len(acc[2]) + 1
          piv == acc[1][j]
          sw == [acc[1] EXCEPT ![j] = acc[1][k], ![k] = piv]
      IN <<TLCEval([r \in 1 .. Len(G) |-> IF r # k /\ sw[r][p] = 1 THEN TLCEval(XorW(sw[r], piv)) ELSE sw[r]]), Append(acc[2], p)>>,
    <<G, <<>>>>, order)
FullRank(G) == Len(Reduce(G, [p \in 1 .. Len(G[1]) |-> p])[2]) = Len(G)
(* the word that agrees with the hard decisions on the pivots *)
BaseWord(red, soft) == FoldLeft(LAMBDA acc, j : IF soft[red[2][j]] < 0 THEN XorW(acc, red[1][j]) ELSE acc,
                                ZeroW(Len(soft)), [j \in 1 .. Len(red[1]) |-> j])
(* correlations of all candidates: words with at most O pivots flipped *)
RECURSIVE Walk(_, _, _, _, _)
Walk(red, soft, c, from, depth) ==
  LET me == <<Corr(c, soft)>> IN
  IF depth = 0 \/ from > Len(red[1]) THEN me
  ELSE FoldLeft(LAMBDA acc, j : acc \o Walk(red, soft, TLCEval(XorW(c, red[1][j])), j + 1, depth - 1), me,
                [j \in 1 .. Len(red[1]) - from + 1 |-> j + from - 1])
Correlations(red, soft, O) == Walk(red, soft, BaseWord(red, soft), 1, O)
MaxOf(sq) == FoldLeft(LAMBDA acc, x : IF x > acc THEN x ELSE acc, sq[1], sq)
CountOf(sq, v) == FoldLeft(LAMBDA acc, x : IF x = v THEN acc + 1 ELSE acc, 0, sq)
(* is w such a candidate? *)
Candidate(red, soft, O, w) ==
  /\ FoldLeft(LAMBDA acc, j : acc + (IF w[red[2][j]] = HardBit(soft[red[2][j]]) THEN 0 ELSE 1), 0, [j \in 1 .. Len(red[1]) |-> j]) <= O
  /\ w = FoldLeft(LAMBDA acc, j : IF w[red[2][j]] = 1 THEN XorW(acc, red[1][j]) ELSE acc, ZeroW(Len(soft)), [j \in 1 .. Len(red[1]) |-> j])
DecodeOK(red, soft, O, w, unique) ==
  LET cs == TLCEval(Correlations(red, soft, O))
      mx == TLCEval(MaxOf(cs))
  IN /\ Candidate(red, soft, O, w)
     /\ Corr(w, soft) = mx
     /\ unique = (CountOf(cs, mx) = 1)
RankOf(cs, j) == Cardinality({cs[x] : x \in 1 .. j}) - 1
ListOK(red, soft, O, ws, ranks) ==
  LET cs == TLCEval(SortSeq(Correlations(red, soft, O), LAMBDA a, b : a > b))
      N == Len(ws)
  IN /\ N <= Len(cs)
     /\ \A x \in 1 .. N : Candidate(red, soft, O, ws[x]) /\ Corr(ws[x], soft) = cs[x] /\ ranks[x] = RankOf(cs, x)
     /\ Cardinality({ws[x] : x \in 1 .. N}) = N
(* every basis of the code positions that greedy selection may end up with,  *)
(* depending on the order of equally reliable positions                      *)
WeightOf(B, soft) == FoldSet(LAMBDA p, acc : acc + Rel(soft[p]), 0, B)
BasisOrder(B, nn) == SetToSeq(B) \o SetToSeq((1 .. nn) \ B)
Greedy(G, soft) == LET red == Reduce(G, ByReliability(soft)) IN {red[2][j] : j \in 1 .. Len(red[2])}
Bases(G, soft) ==
  LET w == WeightOf(Greedy(G, soft), soft)
  IN {B \in kSubset(Len(G), 1 .. Len(soft)) : WeightOf(B, soft) = w
        /\ {q \in B : \E j \in 1 .. Len(G) : LET r == Reduce(G, BasisOrder(B, Len(soft))) IN r[2][j] = q} = B}
HasTies(soft) == Cardinality({Rel(soft[p]) : p \in 1 .. Len(soft)}) < Len(soft)
(* P(red) for the basis in use *)
ForSomeBasis(P(_), G, soft) ==
  IF P(TLCEval(Reduce(G, ByReliability(soft)))) THEN TRUE
  ELSE IF Len(soft) > 15 \/ ~HasTies(soft) THEN FALSE
  ELSE \E B \in Bases(G, soft) : P(TLCEval(Reduce(G, BasisOrder(B, Len(soft)))))
(* the generator polynomial: product of the minimal polynomials (integers,   *)
(* lowest coefficient in the lowest bit), as bits, lowest degree first       *)
PolyBits(m) == LET RECURSIVE bits(_)
                   bits(v) == IF v = 0 THEN <<>> ELSE <<v % 2>> \o bits(v \div 2)
               IN bits(m)
PolyMul(a, b) == [k \in 1 .. Len(a) + Len(b) - 1 |->
   FoldLeft(LAMBDA acc, x : IF k - x + 1 >= 1 /\ k - x + 1 <= Len(b) THEN (acc + a[x] * b[k - x + 1]) % 2 ELSE acc, 0, [x \in 1 .. Len(a) |-> x])]
GenPoly(ms) == FoldLeft(LAMBDA acc, m : TLCEval(PolyMul(acc, PolyBits(m))), <<1>>, ms)
(* words list the highest degree first *)
PolyWord(g) == [p \in 1 .. Len(g) |-> g[Len(g) + 1 - p]]
Shifted(g, nn, j) == [p \in 1 .. nn |-> IF p >= j /\ p < j + Len(g) THEN PolyWord(g)[p - j + 1] ELSE 0]
PlainMatrix(g, nn, kk) == [j \in 1 .. kk |-> Shifted(g, nn, j)]
SystematicMatrix(g, nn, kk) == Reduce(PlainMatrix(g, nn, kk), [p \in 1 .. nn |-> p])[1]
=============================================================================
