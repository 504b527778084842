-------------------------------- MODULE GFT --------------------------------
(* Finite fields with precomputed tables: the same functions as GF, for the  *)
(* fields listed, and polynomials over them.                                 *)
EXTENDS GF, SequencesExt
TabFields == { <<2, 7>>, <<3, 11>>, <<3, 13>>, <<4, 19>>, <<4, 25>>, <<5, 37>>, <<5, 61>>, <<6, 67>>,
               <<6, 109>>, <<7, 137>>, <<7, 143>>, <<8, 285>>, <<8, 299>> }
ExpT == TLCEval([f \in TabFields |-> TLCEval(FoldLeft(LAMBDA acc, k : Append(acc, XTime(f[1], f[2], acc[k])),
                                      <<1>>, [k \in 1 .. N(f[1])-1 |-> k]))])
LogT == TLCEval([f \in TabFields |-> TLCEval(FoldLeft(LAMBDA acc, k : [acc EXCEPT ![ExpT[f][k]] = k-1],
                                      [k \in 1 .. N(f[1]) |-> 0], [k \in 1 .. N(f[1]) |-> k]))])
(* f is <<M, P>>; operands must be field elements *)
HasTab(f) == f \in TabFields
TMul(f, a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF HasTab(f) THEN ExpT[f][((LogT[f][a] + LogT[f][b]) % N(f[1])) + 1]
  ELSE Mul(f[1], f[2], a, b)
(* primitive element to the power of i *)
TExp(f, i) == IF HasTab(f) THEN ExpT[f][(i % N(f[1])) + 1] ELSE Exp(f[1], f[2], i % N(f[1]))
TInv(f, a) == IF HasTab(f) THEN ExpT[f][((N(f[1]) - LogT[f][a]) % N(f[1])) + 1] ELSE Inv(f[1], f[2], a)
(* value at x of the polynomial whose coefficients are w, highest degree first *)
HornerDef(f, w, x) == FoldLeft(LAMBDA acc, c : TMul(f, acc, x) ^^ c, 0, w)
(* the same for long words: multiplication by x is linear, so the product is  *)
(* that of the low half of the bits plus that of the high half                *)
Half(f) == 2^(f[1] \div 2)
Products(f, x, unit, count) == TLCEval([k \in 1 .. count |-> Mul(f[1], f[2], unit*(k-1), x)])
Factor(f, x) == LET h == Half(f) IN TLCEval([h |-> h, lo |-> Products(f, x, 1, h), hi |-> Products(f, x, h, Q(f[1]) \div h)])
TimesFactor(t, a) == t.lo[(a % t.h) + 1] ^^ t.hi[(a \div t.h) + 1]
HornerFar(f, w, x) ==
  LET t == Factor(f, x) IN
  FoldLeft(LAMBDA acc, c : TimesFactor(t, acc) ^^ c, 0, w)
Horner(f, w, x) == IF Len(w) > 600 THEN HornerFar(f, w, x) ELSE HornerDef(f, w, x)
IsWord(f, w, n) == Len(w) = n /\ \A k \in 1 .. n : IsElem(f[1], w[k])
Distance(u, v) == FoldLeft(LAMBDA acc, k : acc + (IF u[k] = v[k] THEN 0 ELSE 1), 0, [k \in 1 .. Len(u) |-> k])
=============================================================================
