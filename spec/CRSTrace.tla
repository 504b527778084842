------------------------------ MODULE CRSTrace ------------------------------
(* Conformance of cauchy_reed_solomon_erasure_coding.hh.                     *)
EXTENDS TraceLib, GFT
VARIABLES fld, data        \* field <<M, P>> and the data blocks
tvars == <<l, fld, data>>
(* chunk x is sum_k data[k] / (x + k) *)
Chunk(x) ==
  LET cf == TLCEval([k \in 1 .. Len(data) |-> TInv(fld, x ^^ (k-1))]) IN
  [i \in 1 .. Len(data[1]) |-> FoldLeft(LAMBDA acc, k : acc ^^ TMul(fld, cf[k], data[k][i]), 0, [k \in 1 .. Len(data) |-> k])]
(* the same for long blocks *)
ChunkFar(x) ==
  LET cf == TLCEval([k \in 1 .. Len(data) |-> Factor(fld, TInv(fld, x ^^ (k-1)))]) IN
  [i \in 1 .. Len(data[1]) |-> FoldLeft(LAMBDA acc, k : acc ^^ TimesFactor(cf[k], data[k][i]), 0, [k \in 1 .. Len(data) |-> k])]
TraceInit == l = 1 /\ fld = <<3, 11>> /\ data = <<>>
Begin == IsEvent("Begin") /\ fld' = <<Ev.M, Ev.P>> /\ data' = Ev.data
Keep == UNCHANGED <<fld, data>>
K == Len(data)
Encode == IsEvent("Encode") /\ Ev.intact /\ Ev.id >= K /\ Ev.out = (IF Len(data[1]) > 600 THEN ChunkFar(Ev.id) ELSE Chunk(Ev.id)) /\ Keep
(* K chunks with distinct numbers were taken from the encoder; each block of *)
(* the result, in the order it was asked for                                 *)
Distinct(s) == \A x, y \in 1 .. Len(s) : x # y => s[x] # s[y]
Decode == /\ IsEvent("Decode") /\ Ev.intact
          /\ Len(Ev.ids) = K /\ Distinct(Ev.ids)
          /\ Len(Ev.out) = Len(Ev.idx)
          /\ (\A k \in 1 .. Len(Ev.idx) : Ev.out[k] = data[Ev.idx[k] + 1])
          /\ Keep
TraceNext == Begin \/ Encode \/ Decode
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
