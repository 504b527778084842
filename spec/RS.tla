--------------------------------- MODULE RS ---------------------------------
(* Reed-Solomon and BCH codes over the field f = <<M, P>>: NR consecutive    *)
(* roots from the power FCR of the primitive element.  Words are sequences   *)
(* of symbols, first transmitted (= highest power) first.                    *)
EXTENDS GFT, FiniteSets
Syndrome(f, FCR, w, i) == Horner(f, w, TExp(f, FCR + i))
Syndromes(f, NR, FCR, w) == [i \in 1 .. NR |-> Syndrome(f, FCR, w, i-1)]
IsCodeword(f, NR, FCR, w) == \A i \in 0 .. NR-1 : Syndrome(f, FCR, w, i) = 0
(* what bounded distance decoding promises *)
InCapacity(NR, errors, erasures) == 2*errors + erasures <= NR
(* decoding rx with the erased positions era (1-based) gave ret and left out *)
Unchanged(rx, ret, out) == ret < 0 => out = rx
SoundSuccess(f, NR, FCR, n, rx, ret, out) ==
  ret >= 0 => /\ IsWord(f, out, n)
              /\ IsCodeword(f, NR, FCR, out)
              /\ Distance(rx, out) = ret
(* the sent codeword tx is restored whenever the damage is within capacity *)
Restores(f, NR, FCR, n, tx, rx, era, ret, out) ==
  LET erased == {era[k] : k \in 1 .. Len(era)}
      wrong == {k \in 1 .. n : tx[k] # rx[k]} IN
  InCapacity(NR, Cardinality(wrong \ erased), Cardinality(erased)) =>
     /\ out = tx
     /\ ret = Cardinality(wrong)
=============================================================================
