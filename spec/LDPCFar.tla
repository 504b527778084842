------------------------------ MODULE LDPCFar ------------------------------
(* The same code and decoder as in LDPC for tables of any size: bits are     *)
(* kept in words of D lanes.  Data bit m of group g is lane m div W of word  *)
(* g*W + m % W, parity bit q*m + i is lane m div W of word                   *)
(* G*W + i*W + m % W.  Layer x handles checks q*(W*n + j) + i for all lanes  *)
(* n, so every link of it is a word rotated by some number of lanes.         *)
EXTENDS LDPC
(* row i: <<group, address div q>> of its links in table order *)
FarRows(t) == TLCEval([i1 \in 1 .. t.q |-> FoldLeft(LAMBDA s, ga : IF ga[2] % t.q = i1 - 1 THEN Append(s, <<ga[1], ga[2] \div t.q>>) ELSE s, <<>>, t.adr)])
(* links of a layer: <<word, shift>>; shift -1: the lane before that of the last word, lane 0 missing *)
FarLinks(t, rows, x) ==
  LET W == WW(t)  i == (x - 1) \div W  j == (x - 1) % W
      data == [k \in 1 .. Len(rows[i + 1]) |-> LET c == ((j - rows[i + 1][k][2]) + t.M) % t.M
                                               IN <<rows[i + 1][k][1] * W + (c % W), c \div W>>]
      P == t.G * W
  IN TLCEval(data \o <<<<P + i * W + j, 0>>,
       IF i > 0 THEN <<P + (i - 1) * W + j, 0>> ELSE IF j > 0 THEN <<P + (t.q - 1) * W + j - 1, 0>> ELSE <<P + t.q * W - 1, -1>>>>)
FarPrepared(t) == LET rows == FarRows(t) IN
  [t |-> t, layers |-> TLCEval([x \in 1 .. t.q * WW(t) |-> FarLinks(t, rows, x)])]
FarWord(t, w) == LET W == WW(t)  P == t.G * W IN
  TLCEval([y \in 1 .. P + t.q * W |->
    TLCEval(IF y <= P THEN [n1 \in 1 .. t.D |-> w[t.M * ((y - 1) \div W) + W * (n1 - 1) + ((y - 1) % W) + 1]]
    ELSE [n1 \in 1 .. t.D |-> w[KK(t) + t.q * (W * (n1 - 1) + ((y - 1 - P) % W)) + ((y - 1 - P) \div W) + 1]])])
FarBits(t, v) == LET W == WW(t)  P == t.G * W IN
  TLCEval([b1 \in 1 .. NN(t) |->
    IF b1 <= KK(t) THEN LET g == (b1 - 1) \div t.M  m == (b1 - 1) % t.M IN v[g * W + (m % W) + 1][(m \div W) + 1]
    ELSE LET p == b1 - 1 - KK(t)  i == p % t.q  m == p \div t.q IN v[P + i * W + (m % W) + 1][(m \div W) + 1]])
Lane(v, lk, n1, D) == IF lk[2] = -1 THEN (IF n1 = 1 THEN 127 ELSE v[lk[1] + 1][n1 - 1])
                      ELSE v[lk[1] + 1][((n1 - 1 + lk[2]) % D) + 1]
(* the word with its lanes back in their place *)
Placed(v, lk, new, D) == IF lk[2] = -1 THEN [n1 \in 1 .. D |-> IF n1 = D THEN v[lk[1] + 1][D] ELSE new[n1 + 1]]
                         ELSE [n1 \in 1 .. D |-> new[((n1 - 1 + D - lk[2]) % D) + 1]]
FarValid(fp, v) == \A x \in 1 .. Len(fp.layers) : \A n1 \in 1 .. fp.t.D :
   FoldLeft(LAMBDA pr, lk : pr * SignOf(Lane(v, lk, n1, fp.t.D)), 1, fp.layers[x]) = 1
(* <<smallest, second smallest>> *)
TwoLeast(mg) == FoldLeft(LAMBDA m, a : IF a < m[1] THEN <<a, m[1]>> ELSE IF a < m[2] THEN <<m[1], a>> ELSE m, <<127, 127>>, mg)
FarCheck(inp, bl, beta) ==
  LET mg == TLCEval([k \in 1 .. Len(inp) |-> Mag(inp[k], beta)])
      two == TLCEval(TwoLeast(mg))
      odd == NegCount(inp) % 2
  IN TLCEval([k \in 1 .. Len(inp) |->
       LET m == IF mg[k] = two[1] THEN two[2] ELSE two[1]
           s == (odd + (IF inp[k] < 0 THEN 1 ELSE 0)) % 2
       IN SelfCorrected(bl[k], Clamp(IF s = 1 THEN -m ELSE m))])
FarFresh(fp) == TLCEval([x \in 1 .. Len(fp.layers) |-> [n1 \in 1 .. fp.t.D |-> [k \in 1 .. Len(fp.layers[x]) |-> 0]]])
(* no two links of a layer share a word *)
FarLayer(fp, x, v, bls, beta) ==
  LET ln == fp.layers[x]  D == fp.t.D
      inp == TLCEval([n1 \in 1 .. D |-> TLCEval([k \in 1 .. Len(ln) |-> Sat(Lane(v, ln[k], n1, D) - bls[x][n1][k])])])
      out == TLCEval([n1 \in 1 .. D |-> FarCheck(inp[n1], bls[x][n1], beta)])
      nv == FoldLeft(LAMBDA acc, k : [acc EXCEPT ![ln[k][1] + 1] = TLCEval(Placed(acc, ln[k], [n1 \in 1 .. D |-> Sat(inp[n1][k] + out[n1][k])], D))],
                     v, [k \in 1 .. Len(ln) |-> k])
  IN <<TLCEval(nv), TLCEval([bls EXCEPT ![x] = out])>>
FarPass(fp, v, bls, beta) ==
  FoldLeft(LAMBDA st, x : FarLayer(fp, x, st[1], st[2], beta), <<v, bls>>, [x \in 1 .. Len(fp.layers) |-> x])
RECURSIVE FarFrom(_, _, _, _, _)
FarFrom(fp, v, bls, trials, beta) ==
  IF FarValid(fp, v) THEN <<v, trials>>
  ELSE IF trials < 1 THEN <<v, trials - 1>>
  ELSE LET st == TLCEval(FarPass(fp, v, bls, beta)) IN FarFrom(fp, st[1], st[2], trials - 1, beta)
(* <<word, result>> *)
FarDecode(fp, w, trials, beta) == LET r == TLCEval(FarFrom(fp, FarWord(fp.t, w), FarFresh(fp), trials, beta)) IN <<FarBits(fp.t, r[1]), r[2]>>
=============================================================================
