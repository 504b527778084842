----------------------------- MODULE PolarTrace -----------------------------
EXTENDS TraceLib, Polar
VARIABLE frz
tvars == <<l, frz>>
TraceInit == l = 1 /\ frz = <<>>
Begin == IsEvent("Begin") /\ frz' = Ev.frozen
Keep == UNCHANGED frz
Plain == IsEvent("Plain") /\ Ev.intact /\ PlainOK(Ev.msg, frz, Ev.code) = TRUE /\ Keep
Systematic == IsEvent("Systematic") /\ Ev.intact /\ SystematicOK(Ev.msg, frz, Ev.code) = TRUE /\ Keep
Parity == IsEvent("Parity") /\ Ev.intact /\ ParityOK(Ev.msg, frz, Ev.stride, Ev.first, Ev.code) = TRUE /\ Keep
(* few free positions of a large code: the codeword at some positions *)
FarBits(msg, stride, first) == PlaceParity(msg, [x \in 1 .. Len(Ev.free) |-> 0], stride, first)
Below(p, q) == p & q = p
FarOK(u) == \A k \in 1 .. Len(Ev.at) :
  Ev.val[k] = FoldLeft(LAMBDA acc, x : IF Below(Ev.at[k], Ev.free[x]) THEN acc * u[x] ELSE acc, 1, [x \in 1 .. Len(Ev.free) |-> x])
FarPlain == IsEvent("FarPlain") /\ Ev.intact /\ Len(Ev.msg) = Len(Ev.free) /\ FarOK(Ev.msg) = TRUE /\ Keep
FarParity == IsEvent("FarParity") /\ Ev.intact
  /\ Len(Ev.msg) = ParityMessage([x \in 1 .. Len(Ev.free) |-> 0], Ev.stride, Ev.first)
  /\ FarOK(TLCEval(FarBits(Ev.msg, Ev.stride, Ev.first))) = TRUE /\ Keep
VastParity == IsEvent("VastParity") /\ Ev.intact /\ Ev.len = PrefixMessage(Ev.n, Ev.frozen, Ev.stride, Ev.first)
  /\ (\E m \in {PrefixParity(Ev.n, Ev.frozen, Ev.stride, Ev.first, ToSet(Ev.minus))} :
        \A k \in 1 .. Len(Ev.at) : Ev.val[k] = (IF (Cardinality({q \in m : Below(Ev.at[k], q)}) % 2) = 1 THEN -1 ELSE 1))
  /\ Keep
(* free: all positions above one (stride): the codeword depends only on the part of the position above it *)
FarSystematic == IsEvent("FarSystematic") /\ Ev.intact
  /\ (\A k \in 1 .. Len(Ev.free) : Ev.at[k] = Ev.free[k] /\ Ev.val[k] = Ev.msg[k] /\ Below(Ev.stride, Ev.free[k]))
  /\ (\A k \in 1 .. Len(Ev.at) : \E x \in 1 .. Len(Ev.free) : Ev.free[x] = (Ev.at[k] | Ev.stride) /\ Ev.val[k] = Ev.msg[x])
  /\ Keep
(* clean: the soft values are those of the codeword of this message *)
Successive == IsEvent("SC") /\ Ev.intact /\ Ev.msg = SCDecode(Ev.ar, Ev.soft, frz)
  /\ (Len(Ev.clean) > 0 => Ev.msg = Ev.clean) /\ Keep
List == IsEvent("List") /\ Ev.intact /\ ListOK(Ev.ar, Ev.soft, frz, Ev.L, -1, 0, Ev.msgs, Ev.rank) = TRUE
  /\ (Len(Ev.clean) > 0 => Ev.msgs[1] = Ev.clean) /\ Keep
Aided == IsEvent("Aided") /\ Ev.intact /\ ListOK(Ev.ar, Ev.soft, frz, Ev.L, Ev.stride, Ev.first, Ev.msgs, Ev.rank) = TRUE
  /\ (Len(Ev.clean) > 0 => Ev.msgs[1] = Ev.clean) /\ Keep
TraceNext == Begin \/ Plain \/ Systematic \/ Parity \/ FarPlain \/ FarParity \/ VastParity \/ FarSystematic \/ Successive \/ List \/ Aided
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
