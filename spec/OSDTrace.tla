------------------------------ MODULE OSDTrace ------------------------------
EXTENDS TraceLib, OSD
VARIABLE genmat
tvars == <<l, genmat>>
TraceInit == l = 1 /\ genmat = <<>>
Begin == IsEvent("Begin") /\ genmat' = <<>>
Keep == UNCHANGED genmat
(* the generator matrix helpers *)
Poly == IsEvent("Poly") /\ Ev.intact /\ Ev.poly = PolyWord(GenPoly(Ev.minpols)) /\ Keep
Matrix == IsEvent("Matrix") /\ Ev.intact
  /\ (\E g \in {GenPoly(Ev.minpols)} : Ev.G = IF Ev.sys THEN SystematicMatrix(g, Ev.N, Ev.K) ELSE PlainMatrix(g, Ev.N, Ev.K))
  /\ genmat' = Ev.G
Given == IsEvent("Given") /\ genmat' = Ev.G
Linear == IsEvent("Linear") /\ Ev.intact /\ Ev.code = Times(Ev.msg, genmat) /\ Keep
Decode == IsEvent("OSD") /\ Ev.intact /\ Keep
  /\ ForSomeBasis(LAMBDA red : DecodeOK(red, Ev.soft, Ev.O, Ev.hard, Ev.ret), genmat, Ev.soft) = TRUE
List == IsEvent("OSLD") /\ Ev.intact /\ Keep
  /\ ForSomeBasis(LAMBDA red : ListOK(red, Ev.soft, Ev.O, Ev.hard, Ev.rank), genmat, Ev.soft) = TRUE
TraceNext == Begin \/ Poly \/ Matrix \/ Given \/ Linear \/ Decode \/ List
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
