-------------------------------- MODULE LDPC --------------------------------
(* Repeat-accumulate LDPC codes described by address tables (DVB-S2/T2 form) *)
(* and their layered self-corrected min-sum decoder.                         *)
(*   A table is a record [M, q, G, D, adr]: M bits per group, M*q checks,    *)
(*   G groups of data bits, D checks handled at once; adr is the sequence    *)
(*   of <<group, address>> in table order.                                   *)
(* Bit m of group g takes part in check (address + m*q) mod R for each of    *)
(* the group's addresses; check p also has parity bits p and p-1.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
RR(t) == t.M * t.q
KK(t) == t.M * t.G
NN(t) == KK(t) + RR(t)
(* data bits of check p in table order *)
DataLinks(t, p) ==
  FoldLeft(LAMBDA s, ga : LET diff == ((p - ga[2]) + RR(t)) % RR(t) IN
              IF diff % t.q = 0 THEN Append(s, t.M * ga[1] + (diff \div t.q)) ELSE s, <<>>, t.adr)
(* all bits: data, own parity, previous parity; -1: the missing one of check 0 *)
AllLinks(t, p) == DataLinks(t, p) \o <<KK(t) + p, IF p = 0 THEN -1 ELSE KK(t) + p - 1>>
LinkTable(t) == TLCEval([p1 \in 1 .. RR(t) |-> TLCEval(AllLinks(t, p1 - 1))])
SignOf(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
(* word w (bits at 1..N) at link b *)
At(w, b) == IF b = -1 THEN 127 ELSE w[b + 1]
Product(w, links) == FoldLeft(LAMBDA pr, b : pr * SignOf(At(w, b)), 1, links)
Valid(w, LT) == \A p1 \in 1 .. Len(LT) : Product(w, LT[p1]) = 1
(* ---- decoder ---- *)
Sat(v) == IF v > 127 THEN 127 ELSE IF v < -128 THEN -128 ELSE v
Mag(v, beta) == LET a == IF v < 0 THEN (IF v = -128 THEN 127 ELSE -v) ELSE v IN IF a > beta THEN a - beta ELSE 0
Clamp(v) == IF v > 31 THEN 31 ELSE IF v < -31 THEN -31 ELSE v
(* a message whose sign differs from that of the last one is erased *)
SelfCorrected(old, new) == IF old = 0 \/ (old > 0 /\ new >= 0) \/ (old < 0 /\ new < 0) THEN new ELSE 0
LeastOther(mg, k) == FoldLeft(LAMBDA m, x : IF x # k /\ mg[x] < m THEN mg[x] ELSE m, 127, [x \in 1 .. Len(mg) |-> x])
NegCount(inp) == FoldLeft(LAMBDA m, v : IF v < 0 THEN m + 1 ELSE m, 0, inp)
(* one check: <<messages to the bits, new values of the bits>> *)
CheckNode(w, links, bl, beta) ==
  LET inp == TLCEval([k \in 1 .. Len(links) |-> Sat(At(w, links[k]) - bl[k])])
      mg == TLCEval([k \in 1 .. Len(links) |-> Mag(inp[k], beta)])
      odd == NegCount(inp) % 2
      out == TLCEval([k \in 1 .. Len(links) |->
               LET m == LeastOther(mg, k)
                   s == (odd + (IF inp[k] < 0 THEN 1 ELSE 0)) % 2
               IN SelfCorrected(bl[k], Clamp(IF s = 1 THEN -m ELSE m))])
  IN <<out, [k \in 1 .. Len(links) |-> Sat(inp[k] + out[k])]>>
(* Layers: checks q*(W*n + j) + i for n = 0..D-1 are updated at once, for    *)
(* i = 0..q-1 and within for j = 0..W-1.                                     *)
WW(t) == t.M \div t.D
LayerSeq(t) == [x \in 1 .. t.q * WW(t) |-> <<(x - 1) \div WW(t), (x - 1) % WW(t)>>]
LayerChecks(t, lay) == [n1 \in 1 .. t.D |-> t.q * (WW(t) * (n1 - 1) + lay[2]) + lay[1]]
(* Of the links of one check row into the same group whose bits are handled  *)
(* in the same words, one is updated per pass; they take turns.              *)
Runs(t, i, LT) ==
  LET ln == LT[i + 1]  nd == Len(ln) - 2
      word == [k \in 1 .. nd |-> <<ln[k] \div t.M, (ln[k] % t.M) % WW(t)>>]
  IN {S \in {{k \in 1 .. nd : word[k] = word[x]} : x \in 1 .. nd} : Cardinality(S) > 1}
(* everything that is constant for a table *)
Prepared(t) ==
  LET LT == LinkTable(t)
      LS == LayerSeq(t)
  IN [t |-> t, LT |-> LT,
      layers |-> TLCEval([x \in 1 .. Len(LS) |-> TLCEval(LayerChecks(t, LS[x]))]),
      runs |-> TLCEval([x \in 1 .. Len(LS) |-> TLCEval(Runs(t, LS[x][1], LT))]),
      (* who may write bit b in a layer: sequence of <<n1, k>> *)
      writers |-> TLCEval([x \in 1 .. Len(LS) |->
          LET ch == LayerChecks(t, LS[x])
              all == TLCEval({<<n1, k>> : n1 \in 1 .. t.D, k \in 1 .. Len(LT[ch[1] + 1])})
          IN FoldSet(LAMBDA e, acc : LET b == LT[ch[e[1]] + 1][e[2]] IN
                        IF b = -1 THEN acc ELSE [acc EXCEPT ![b + 1] = @ \o <<e>>],
                     [b1 \in 1 .. NN(t) |-> <<>>], all)])]
(* act[layer]: the set of links that stay inactive in the coming pass        *)
MaskChoices(pr) == LET nl == Len(pr.layers)
                   opt(x) == IF pr.runs[x] = {} THEN {{}}
                             ELSE {UNION pr.runs[x] \ {g[S] : S \in pr.runs[x]} : g \in {g \in [pr.runs[x] -> UNION pr.runs[x]] : \A S \in pr.runs[x] : g[S] \in S}}
                   RECURSIVE build(_)
                   build(x) == IF x = 0 THEN {<<>>} ELSE {Append(s, o) : s \in build(x - 1), o \in opt(x)}
               IN build(nl)
(* the other link of each pair: runs of two only *)
Turned(pr, act) == [x \in 1 .. Len(act) |-> UNION pr.runs[x] \ act[x]]
LayerStep(pr, x, w, bls, act, beta) ==
  LET ch == pr.layers[x]
      res == TLCEval([n1 \in 1 .. Len(ch) |-> CheckNode(w, pr.LT[ch[n1] + 1], bls[ch[n1] + 1], beta)])
      nw == [b1 \in 1 .. Len(w) |->
               LET ws == pr.writers[x][b1] IN
               FoldLeft(LAMBDA v, e : IF e[2] \in act[x] THEN v ELSE res[e[1]][2][e[2]], w[b1], ws)]
      nb == [p1 \in 1 .. Len(bls) |->
               IF ((p1 - 1) % pr.t.q) = (ch[1] % pr.t.q) /\ (((p1 - 1) \div pr.t.q) % WW(pr.t)) = ((ch[1] \div pr.t.q) % WW(pr.t))
               THEN LET n1 == (((p1 - 1) \div pr.t.q) \div WW(pr.t)) + 1 IN
                    [k \in 1 .. Len(bls[p1]) |-> IF k \in act[x] THEN bls[p1][k] ELSE res[n1][1][k]]
               ELSE bls[p1]]
  IN <<TLCEval(nw), TLCEval(nb)>>
Pass(pr, w, bls, act, beta) ==
  FoldLeft(LAMBDA st, x : LayerStep(pr, x, st[1], st[2], act, beta), <<w, bls>>, [x \in 1 .. Len(pr.layers) |-> x])
Fresh(pr) == [p1 \in 1 .. Len(pr.LT) |-> [k \in 1 .. Len(pr.LT[p1]) |-> 0]]
(* <<word, result, passes, which links are inactive next>> *)
RECURSIVE DecodeFrom(_, _, _, _, _, _, _)
DecodeFrom(pr, w, bls, act, trials, beta, passes) ==
  IF Valid(w, pr.LT) THEN <<w, trials, passes, act>>
  ELSE IF trials < 1 THEN <<w, trials - 1, passes, act>>
  ELSE LET st == TLCEval(Pass(pr, w, bls, act, beta))
       IN DecodeFrom(pr, st[1], st[2], TLCEval(Turned(pr, act)), trials - 1, beta, passes + 1)
Decode(pr, w, act, trials, beta) == DecodeFrom(pr, w, Fresh(pr), act, trials, beta, 0)
=============================================================================
