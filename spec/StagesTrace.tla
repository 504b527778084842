----------------------------- MODULE StagesTrace -----------------------------
(* Conformance of reed_solomon_error_correction.hh.                          *)
EXTENDS TraceLib, Stages
VARIABLE code
tvars == <<l, code>>
TraceInit == l = 1 /\ code = [f |-> <<2, 7>>, NR |-> 1, FCR |-> 0]
Begin == IsEvent("Begin") /\ code' = [f |-> <<Ev.M, Ev.P>>, NR |-> Ev.NR, FCR |-> Ev.FCR]
Keep == UNCHANGED code
F == code.f
Nn == N(F[1])
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
(* all coefficients b of 1 + b x + a x^2: number of roots found and their locations; *)
(* different roots r and o have sum b/a and product 1/a; there are (N - 1)/2 such pairs *)
Quadratics == IsEvent("Quadratics") /\ Ev.intact /\ Len(Ev.ret) = Nn + 1
  /\ (\E ra \in {TInv(F, Ev.a)} : \A b1 \in 1 .. Nn + 1 : Ev.ret[b1] = 2 =>
        \E r \in {RootOf(F, Ev.locs[2*b1 - 1])} : \E o \in {RootOf(F, Ev.locs[2*b1])} :
          /\ Ev.locs[2*b1 - 1] \in 0 .. Nn - 1 /\ Ev.locs[2*b1] \in 0 .. Nn - 1
          /\ r # o /\ (r ^^ o) = TMul(F, b1 - 1, ra) /\ TMul(F, r, o) = ra) = TRUE
  /\ (\A b1 \in 1 .. Nn + 1 : Ev.ret[b1] \in 0 .. 2)
  /\ Len(SelectSeq(Ev.ret, LAMBDA v : v = 2)) = (Nn - 1) \div 2
  /\ Keep
(* the finder: all roots, or fewer than the degree *)
IsRoots(c, locs) == Different(locs) /\ \A k \in 1 .. Len(locs) : locs[k] \in 0 .. Nn - 1 /\ ValueAt(F, c, RootOf(F, locs[k])) = 0
Find == IsEvent("Find") /\ Ev.intact
  /\ (\E d \in {Len(Ev.c) - 1} :
       IF Ev.ret = d THEN Len(Ev.locs) = d /\ IsRoots(Ev.c, Ev.locs)
       ELSE /\ Ev.ret \in 0 .. d - 1 /\ d # 1
            /\ IF d = 2 THEN ~Splits(F, Ev.c) ELSE Cardinality(Locations(F, Ev.c)) < d) = TRUE
  /\ Keep
(* the exhaustive search: all different roots; some: a factor known to have no root is left out *)
Search == IsEvent("Search") /\ Ev.intact /\ Ev.ret = Len(Ev.locs)
  /\ IsRoots(Ev.c, Ev.locs) = TRUE
  /\ (Ev.ret = Len(Ev.c) - 1 \/ SetOf(Ev.locs) = Locations(F, Ev.c)) = TRUE
  /\ Keep
Shortest == IsEvent("Shortest") /\ Ev.intact /\ Len(Ev.c) = Len(Ev.s) + 1
  /\ Generates(F, Ev.s, Ev.c, Ev.ret) = TRUE /\ Ev.ret = Massey(F, Ev.s).L /\ Keep
(* syndromes, erased locations, the pattern found; pat: the pattern they come from, where it is within capacity *)
SolveOK(e) ==
  /\ (\E i \in 1 .. Len(e.s) : e.s[i] # 0) /\ Len(e.s) = code.NR
  /\ Sound(F, code.NR, code.FCR, e.s, e.era, e.ret, e.locs, e.mags)
  /\ (e.known => /\ InCapacity(code.NR, Cardinality({k \in 1 .. Len(e.pl) : e.pl[k] \notin SetOf(e.era)}), Len(e.era))
                 /\ PatternSyndromes(F, code.NR, code.FCR, e.pl, e.pm) = e.s
                 /\ e.ret > 0
                 /\ {x \in Pairs(e.locs, e.mags) : x[2] # 0} = {x \in Pairs(e.pl, e.pm) : x[2] # 0})
Solve == IsEvent("Solve") /\ Ev.intact /\ SolveOK(Ev) = TRUE /\ Keep
TraceNext == Begin \/ Quadratics \/ Find \/ Search \/ Shortest \/ Solve
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
