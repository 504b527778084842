----------------------------- MODULE ShortBCHGen -----------------------------
(* Remainders of the powers of x and the correctable pattern of every        *)
(* syndrome, for replaying all received words of the longer codes.           *)
EXTENDS ShortBCH, Json, IOUtils
GenCodes == <<<<23, 12, 2787, 3>>, <<23, 12, 3189, 3>>, <<31, 16, 36783, 3>>>>
Table(cd) == LET tb == TLCEval(Tables(cd)) IN
  cd \o tb.rems \o [xx \in 1 .. 2^CP(cd) |-> IF xx = 1 THEN 0 ELSE Pattern(tb, xx - 1)]
Out == JsonSerialize(IOEnv.OUT, FlattenSeq([xx \in 1 .. Len(GenCodes) |-> Table(GenCodes[xx])]))
VARIABLE done
Init == done = FALSE
Next == ~done /\ Out /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
