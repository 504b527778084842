---------------------------- MODULE XorshiftTrace ----------------------------
EXTENDS TraceLib, Xorshift
VARIABLES kind, st, first
tvars == <<l, kind, st, first>>
TraceInit == l = 1 /\ kind = "x32" /\ st = Seed32 /\ first = Seed32
(* seeds = <<>>: constructed with its documented default *)
Begin == IsEvent("Begin") /\ kind' = Ev.kind
  /\ st' = SeedOf(Ev.kind) /\ first' = st'
(* constructed or reset with the first words given, the rest default *)
Seeded(s) == s \o SubSeq(SeedOf(kind), Len(s)+1, Len(SeedOf(kind)))
Seed == IsEvent("Seed") /\ st' = Seeded(Ev.s) /\ UNCHANGED <<kind, first>>
Draw == IsEvent("Draw") /\ st' = NextOf(kind, st)[1] /\ Ev.r = NextOf(kind, st)[2] /\ UNCHANGED <<kind, first>>
(* n draws, only the last result recorded; the limits of the result type *)
Skip == IsEvent("Skip")
  /\ \E e \in {FoldLeft(LAMBDA acc, k : NextOf(kind, acc[1]), <<st, <<>>>>, [k \in 1 .. Ev.n |-> k])} :
     st' = e[1] /\ Ev.r = e[2]
  /\ UNCHANGED <<kind, first>>
Limits == IsEvent("Limits") /\ (\A k \in 1 .. Len(Ev.lo) : Ev.lo[k] = 0 /\ Ev.hi[k] = 65535)
          /\ Len(Ev.lo) = (IF kind = "x64" THEN 4 ELSE 2) /\ Len(Ev.hi) = Len(Ev.lo)
          /\ UNCHANGED <<kind, st, first>>
TraceNext == Begin \/ Seed \/ Draw \/ Skip \/ Limits
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
