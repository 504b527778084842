----------------------------- MODULE CauchyModel -----------------------------
(* Design model of both erasure codes: blocks, any chunks that survive in any  *)
(* order, and decoding row by row with the cached row products.  KIND "gf":  *)
(* GF(2^M) with polynomial P; "pf": modulo prime P, where the one value that *)
(* does not fit the symbol type is stood in for by a value not in the chunk. *)
EXTENDS GF, SequencesExt, FiniteSets
CONSTANTS KIND, FM, FP, KMAX, LEN
Gf == KIND = "gf"
Size == IF Gf THEN 2^FM ELSE FP
Add(a, b) == IF Gf THEN a ^^ b ELSE (a + b) % FP
Sub(a, b) == IF Gf THEN a ^^ b ELSE (a - b + FP) % FP
MulT == TLCEval([a \in 0 .. Size-1, b \in 0 .. Size-1 |-> IF Gf THEN Mul(FM, FP, a, b) ELSE (a * b) % FP])
Times(a, b) == MulT[a, b]
InvT == TLCEval([a \in 1 .. Size-1 |-> CHOOSE b \in 1 .. Size-1 : MulT[a, b] = 1])
Rcp(a) == IF a = 0 THEN 0 ELSE InvT[a]
C == INSTANCE Cauchy WITH FAdd <- Add, FSub <- Sub, FMul <- Times, FInv <- Rcp
Ids(k) == IF Gf THEN k .. Size-1 ELSE k .. (FP \div 2) - 1
VARIABLES blocks, ids, chunks, subs, row, col, rnum, rden, sum
vars == <<blocks, ids, chunks, subs, row, col, rnum, rden, sum>>
K == Len(blocks)
Init == /\ blocks \in UNION {[1 .. k -> [1 .. LEN -> 0 .. Size-1]] : k \in 1 .. KMAX}
        /\ Cardinality(Ids(Len(blocks))) >= Len(blocks)
        /\ ids = <<>> /\ chunks = <<>> /\ subs = <<>> /\ row = 0 /\ col = 0 /\ rnum = 1 /\ rden = 1
        /\ sum = [x \in 1 .. LEN |-> 0]
Receive ==
  /\ Len(ids) < K
  /\ \E x \in Ids(K) \ {ids[k] : k \in 1 .. Len(ids)} :
       LET v == C!Chunk(x, blocks)
           s == IF Gf THEN 0 ELSE CHOOSE u \in 0 .. LEN : \A y \in 1 .. LEN : v[y] # u IN
       /\ ids' = Append(ids, x) /\ subs' = Append(subs, s)
       /\ chunks' = Append(chunks, [y \in 1 .. LEN |-> IF ~Gf /\ v[y] = FP - 1 THEN s ELSE v[y]])
  /\ UNCHANGED <<blocks, row, col, rnum, rden, sum>>
(* one multiply-accumulate of the decoder *)
Step ==
  /\ Len(ids) = K /\ row < K /\ col < K
  /\ rnum' = (IF col = 0 THEN C!RowNum(ids, row) ELSE rnum)
  /\ rden' = (IF col = 0 THEN C!RowDen(ids, row) ELSE rden)
  /\ LET b == C!InvCoef(ids, row, col, rnum', rden') IN
     sum' = [y \in 1 .. LEN |->
       LET v == IF ~Gf /\ chunks[col+1][y] = subs[col+1] THEN FP - 1 ELSE chunks[col+1][y] IN
       Add(IF col = 0 THEN 0 ELSE sum[y], Times(b, v))]
  /\ col' = col + 1 /\ UNCHANGED <<blocks, ids, chunks, subs, row>>
NextRow == Len(ids) = K /\ col = K /\ row' = row + 1 /\ col' = 0 /\ row < K /\ UNCHANGED <<blocks, ids, chunks, subs, rnum, rden, sum>>
Next == Receive \/ Step \/ NextRow
Spec == Init /\ [][Next]_vars
Restored == col = K /\ row < K => sum = blocks[row+1]
FitsSymbol == ~Gf => \A c \in 1 .. Len(chunks) : \A y \in 1 .. LEN : chunks[c][y] < FP - 1
=============================================================================
