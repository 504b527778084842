------------------------------- MODULE Cauchy -------------------------------
(* Erasure coding with Cauchy matrices over any field given by its           *)
(* operations: chunk number x of K data blocks is sum_k data[k] / (x + k).   *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS FAdd(_, _), FSub(_, _), FMul(_, _), FInv(_)
Coef(x, k) == FInv(FAdd(x, k))
(* one symbol of chunk x; col is the sequence of the K data symbols there *)
ChunkSym(x, col) == FoldLeft(LAMBDA acc, k : FAdd(acc, FMul(Coef(x, k-1), col[k])), 0, [k \in 1 .. Len(col) |-> k])
(* a whole chunk; the coefficients are computed once *)
Chunk(x, data) ==
  LET cf == TLCEval([k \in 1 .. Len(data) |-> Coef(x, k-1)]) IN
  [i \in 1 .. Len(data[1]) |-> FoldLeft(LAMBDA acc, k : FAdd(acc, FMul(cf[k], data[k][i])), 0, [k \in 1 .. Len(data) |-> k])]
(* the documented inverse: rows[j] are the chunk numbers, all zero based *)
Prod(S) == FoldLeft(FMul, 1, S)
RowNum(rows, i) == Prod([k \in 1 .. Len(rows) |-> FAdd(rows[k], i)])
RowDen(rows, i) == Prod([k \in 1 .. Len(rows) |-> IF k - 1 = i THEN 1 ELSE FSub(i, k-1)])
InvCoef(rows, i, j, num0, den0) ==
  LET num == FMul(num0, Prod([k \in 1 .. Len(rows) |-> FAdd(rows[j+1], k-1)]))
      den == FMul(den0, Prod([k \in 1 .. Len(rows) |-> IF k - 1 = j THEN 1 ELSE FSub(rows[j+1], rows[k])])) IN
  FMul(num, FInv(FMul(FAdd(rows[j+1], i), den)))
=============================================================================
