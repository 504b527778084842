---------------------------- MODULE HadamardTrace ----------------------------
(* Conformance of the augmented Hadamard ("had") and simplex ("sim") codecs: *)
(* the encoder's row and maximum likelihood decoding from the definition.    *)
EXTENDS TraceLib, SequencesExt, Bitwise
VARIABLES kind, bits          \* which code, its message length
tvars == <<l, kind, bits>>
RECURSIVE Par(_)
Par(v) == IF v = 0 THEN 0 ELSE ((v % 2) + Par(v \div 2)) % 2
CodeLen(c, K) == IF c = "had" THEN 2^(K-1) ELSE 2^K - 1
(* message bits that decide element i (zero based) *)
Mask(c, K, i) == IF c = "had" THEN i + 2^(K-1) ELSE i + 1
Kinds == {"had", "sim"} \X (1 .. 9)
(* Sign[<<c, K>>][msg+1] is the codeword *)
Sign == TLCEval([ck \in Kinds |-> TLCEval([msg1 \in 1 .. 2^ck[2] |-> TLCEval([x \in 1 .. CodeLen(ck[1], ck[2]) |->
            1 - 2 * Par((msg1 - 1) & Mask(ck[1], ck[2], x - 1))])])])
Dot(u, v) == FoldLeft(LAMBDA acc, x : acc + u[x] * v[x], 0, [x \in 1 .. Len(u) |-> x])
(* correlations with all codewords; <<best, unique, message>> *)
Best(rows, soft) ==
  FoldLeft(LAMBDA acc, m : LET c == Dot(rows[m], soft) IN
             IF m = 1 \/ c > acc[1] THEN <<c, TRUE, m - 1>> ELSE IF c = acc[1] THEN <<c, FALSE, acc[3]>> ELSE acc,
           <<0, FALSE, 0>>, [m \in 1 .. Len(rows) |-> m])
ML(rows, soft) == LET b == TLCEval(Best(rows, soft)) IN IF b[2] THEN b[3] ELSE -1
(* long codes by the fast transform, which HadamardModel shows to be the same *)
FWHT(t) == FoldLeft(LAMBDA acc, e : TLCEval([x \in 1 .. Len(acc) |-> LET h == 2^e IN
             IF ((x-1) \div h) % 2 = 0 THEN acc[x] + acc[x+h] ELSE acc[x-h] - acc[x]]), t,
             [e \in 1 .. bits - (IF kind = "had" THEN 1 ELSE 0) |-> e - 1])
FastML(soft) ==
  LET t == TLCEval(FWHT(IF kind = "had" THEN soft ELSE <<0>> \o soft))
      c == TLCEval(IF kind = "had" THEN t \o [x \in 1 .. Len(t) |-> -t[x]] ELSE t)
      top == TLCEval(FoldLeft(LAMBDA acc, v : IF v > acc THEN v ELSE acc, c[1], c))
      win == TLCEval(SelectSeq([m \in 1 .. Len(c) |-> m], LAMBDA m : c[m] = top)) IN
  IF Len(win) = 1 THEN win[1] - 1 ELSE -1
LongRow(msg) == [x \in 1 .. CodeLen(kind, bits) |-> 1 - 2 * Par(msg & Mask(kind, bits, x - 1))]
TraceInit == l = 1 /\ kind = "had" /\ bits = 2
Begin == IsEvent("Begin") /\ kind' = Ev.kind /\ bits' = Ev.K
Keep == UNCHANGED <<kind, bits>>
Rows == Sign[<<kind, bits>>]
Encode == IsEvent("Encode") /\ Ev.intact /\ Ev.code = (IF bits > 9 THEN LongRow(Ev.msg) ELSE Rows[Ev.msg + 1]) /\ Keep
Decode == IsEvent("Decode") /\ Ev.intact /\ Len(Ev.soft) = Len(Ev.ret)
  /\ (\A x \in 1 .. Len(Ev.soft) : Ev.ret[x] = (IF bits > 8 THEN FastML(Ev.soft[x]) ELSE ML(Rows, Ev.soft[x])))
  /\ Keep
TraceNext == Begin \/ Encode \/ Decode
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
