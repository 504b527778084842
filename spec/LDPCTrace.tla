------------------------------ MODULE LDPCTrace ------------------------------
EXTENDS TraceLib, LDPCFar
VARIABLES prep, poss      \* the table; which links may sit out the next pass
tvars == <<l, prep, poss>>
TraceInit == l = 1 /\ prep = <<>> /\ poss = {}
Begin == IsEvent("Begin") /\ ~Ev.far
  /\ prep' = TLCEval(Prepared([M |-> Ev.M, q |-> Ev.q, G |-> Ev.G, D |-> Ev.D, adr |-> Ev.adr]))
  /\ poss' = IF Ev.dec THEN TLCEval(MaskChoices(prep')) ELSE {}
Encoded(w) == /\ \A b1 \in 1 .. Len(w) : w[b1] \in {-1, 1}
              /\ Valid(w, prep.LT)
Encode == IsEvent("Encode") /\ Ev.intact /\ Len(Ev.data) = KK(prep.t) /\ Len(Ev.parity) = RR(prep.t)
  /\ Encoded(Ev.data \o Ev.parity) = TRUE /\ UNCHANGED <<prep, poss>>
(* soundness of the verdict, whatever the schedule *)
Verdict(w0, w1, trials, ret) ==
  /\ ret <= trials /\ ret >= -1
  /\ (ret >= 0 => Valid(w1, prep.LT))
  /\ (Valid(w0, prep.LT) <=> ret = trials)
  /\ (Valid(w0, prep.LT) => w1 = w0)
Decoded == IsEvent("Decode") /\ Ev.intact
  /\ (Verdict(Ev.soft, Ev.out, Ev.trials, Ev.ret)) = TRUE
  /\ \E nx \in {TLCEval({r[4] : r \in {r \in {Decode(prep, Ev.soft, act, Ev.trials, Ev.beta) : act \in poss} : r[1] = Ev.out /\ r[2] = Ev.ret}})} :
       nx # {} /\ poss' = nx
  /\ UNCHANGED prep
(* large tables, without links that share words: see LDPCFar *)
BeginFar == IsEvent("Begin") /\ Ev.far
  /\ prep' = TLCEval(FarPrepared([M |-> Ev.M, q |-> Ev.q, G |-> Ev.G, D |-> Ev.D, adr |-> Ev.adr]))
  /\ poss' = {}
FarEncode == IsEvent("FarEncode") /\ Ev.intact /\ Len(Ev.data) = KK(prep.t) /\ Len(Ev.parity) = RR(prep.t)
  /\ (\A b1 \in 1 .. Len(Ev.parity) : Ev.parity[b1] \in {-1, 1})
  /\ FarValid(prep, FarWord(prep.t, Ev.data \o Ev.parity)) = TRUE /\ UNCHANGED <<prep, poss>>
FarDecoded == IsEvent("FarDecode") /\ Ev.intact
  /\ FarDecode(prep, Ev.soft, Ev.trials, Ev.beta) = <<Ev.out, Ev.ret>>
  /\ UNCHANGED <<prep, poss>>
TraceNext == BeginFar \/ FarEncode \/ FarDecoded \/ Begin \/ Encode \/ Decoded
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
