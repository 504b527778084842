------------------------------- MODULE RSTrace -------------------------------
(* Conformance of the Reed-Solomon and BCH encoders and decoders.            *)
EXTENDS TraceLib, RS
VARIABLES code        \* parameters of the codec object under test
tvars == <<l, code>>
NoCode == [M |-> 0, P |-> 0, NR |-> 0, FCR |-> 0, bin |-> FALSE, NP |-> 0, K |-> 0]
TraceInit == l = 1 /\ code = NoCode
Begin == IsEvent("Begin") /\ code' = [M |-> Ev.M, P |-> Ev.P, NR |-> Ev.NR, FCR |-> Ev.FCR,
                                      bin |-> Ev.bin, NP |-> Ev.NP, K |-> Ev.K]
F == <<code.M, code.P>>
Keep == UNCHANGED code
Binary(w) == \A k \in 1 .. Len(w) : w[k] \in {0, 1}
(* the encoder was given msg and produced par; after is the message afterwards *)
Encoded(e) ==
  /\ e.after = e.msg /\ e.intact
  /\ Len(e.msg) <= code.K
  /\ IsWord(F, e.par, code.NP)
  /\ code.bin => Binary(e.par)
  /\ IsCodeword(F, code.NR, code.FCR, e.msg \o e.par)
(* tx was sent (validated to be a codeword), rx received, out left behind *)
Decoded(e) ==
  LET n == Len(e.rx) IN
  /\ e.intact
  /\ IsWord(F, e.out, n)
  /\ code.bin => Binary(e.out)
  /\ IsCodeword(F, code.NR, code.FCR, e.tx)
  /\ Restores(F, code.NR, code.FCR, n, e.tx, e.rx, e.era, e.ret, e.out)
  /\ Unchanged(e.rx, e.ret, e.out)
  /\ e.out # e.tx => SoundSuccess(F, code.NR, code.FCR, n, e.rx, e.ret, e.out)
  /\ (e.out = e.tx /\ e.ret >= 0) => Distance(e.rx, e.out) = e.ret
(* evaluated as values: whole words are too long for TLC to unfold as actions *)
Encode == IsEvent("Encode") /\ Encoded(Ev) = TRUE /\ Keep
Decode == IsEvent("Decode") /\ Decoded(Ev) = TRUE /\ Keep
(* what the decoder computed for the word w, and how many of them are not zero *)
Evaluated(e) ==
  /\ e.intact
  /\ e.out = Syndromes(F, code.NR, code.FCR, e.w)
  /\ e.ret = Cardinality({i \in 1 .. code.NR : e.out[i] # 0})
Evaluate == IsEvent("Evaluate") /\ Evaluated(Ev) = TRUE /\ Keep
(* both layouts of the BCH encoder produce the same parity *)
Same == IsEvent("Same") /\ Ev.a = Ev.b /\ Keep
TraceNext == Begin \/ Encode \/ Same \/ Decode \/ Evaluate
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
