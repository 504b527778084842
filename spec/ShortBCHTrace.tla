---------------------------- MODULE ShortBCHTrace ----------------------------
EXTENDS TraceLib, ShortBCH
VARIABLE curcode
tvars == <<l, curcode>>
CodesUsed == TLCEval({<<Trace[ln].N, Trace[ln].K, Trace[ln].G, Trace[ln].T>> : ln \in {ln \in 1 .. TraceLen : Trace[ln].e = "Begin"}})
TabOf == TLCEval([cd \in CodesUsed |-> TLCEval(Tables(cd))])
TraceInit == l = 1 /\ curcode = <<0, 0, 0, 0>>
Begin == IsEvent("Begin") /\ curcode' = <<Ev.N, Ev.K, Ev.G, Ev.T>>
Keep == UNCHANGED curcode
Tb == TabOf[curcode]
(* words for the messages from .. from + number - 1 *)
EncodeRow == IsEvent("EncodeRow") /\ (\A xx \in 1 .. Len(Ev.r) : Ev.r[xx] = Encode(Tb, Ev.from + xx - 1)) /\ Keep
(* with modulation: element x is 1 - 2 * bit x *)
Modulate == IsEvent("Modulate") /\ Ev.intact /\ Ev.r = Encode(Tb, Ev.msg) /\ Len(Ev.code) = CN(curcode)
  /\ (\A xx \in 1 .. CN(curcode) : Ev.code[xx] = 1 - 2 * BitAt(Ev.r, xx - 1)) /\ Keep
(* hard decisions of the words from .. from + number - 1 *)
HardRow == IsEvent("HardRow") /\ (\A xx \in 1 .. Len(Ev.r) : Ev.r[xx] = Hard(Tb, Ev.from + xx - 1)) /\ Keep
HardOne == IsEvent("Hard") /\ Ev.r = Hard(Tb, Ev.w) /\ Keep
Soft == IsEvent("Soft") /\ Ev.intact /\ Len(Ev.soft) = CN(curcode) /\ SoftOK(Tb, Ev.soft, Ev.r) = TRUE /\ Keep
TraceNext == Begin \/ EncodeRow \/ Modulate \/ HardRow \/ HardOne \/ Soft
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
