------------------------------ MODULE SimdTrace ------------------------------
(* Every lane of every vector operation against Simd.tla.                    *)
EXTENDS TraceLib, Simd
VARIABLES t, n
tvars == <<l, t, n>>
TraceInit == l = 1 /\ t = "" /\ n = 0
Vec(v) == Len(v) = n /\ \A k \in 1 .. n : IsLane(v[k], Wide(t))
Begin == IsEvent("Begin") /\ t' = Ev.t /\ n' = Ev.n
Un == IsEvent("Un") /\ Ev.op \in UnaryOps(t) /\ Vec(Ev.a) /\ Vec(Ev.r)
   /\ (\A k \in 1 .. n : Same(IF Ev.op \in Comparisons THEN "mask" ELSE t, Ev.r[k], Unary(Ev.op, t, Ev.a[k])) = TRUE)
   /\ UNCHANGED <<t, n>>
Bin == IsEvent("Bin") /\ Ev.op \in BinaryOps(t) /\ Vec(Ev.a) /\ Vec(Ev.b) /\ Vec(Ev.r)
   /\ (\A k \in 1 .. n : Same(IF Ev.op \in Comparisons THEN "mask" ELSE t, Ev.r[k], Binary(Ev.op, t, Ev.a[k], Ev.b[k])) = TRUE)
   /\ UNCHANGED <<t, n>>
Bsl == IsEvent("Bsl") /\ Vec(Ev.a) /\ Vec(Ev.b) /\ Vec(Ev.c) /\ Vec(Ev.r)
   /\ (\A k \in 1 .. n : Ev.r[k] = Select(Ev.a[k], Ev.b[k], Ev.c[k], Wide(t)))
   /\ UNCHANGED <<t, n>>
ClampE == IsEvent("Clamp") /\ Vec(Ev.x) /\ Vec(Ev.r) /\ ~Less(t, Ev.b, Ev.a)
   /\ (\A k \in 1 .. n : Same(t, Ev.r[k], Clamp(t, Ev.x[k], Ev.a, Ev.b)) = TRUE)
   /\ UNCHANGED <<t, n>>
Shuf == IsEvent("Shuf") /\ Vec(Ev.a) /\ Vec(Ev.r) /\ Len(Ev.i) = n
   /\ (\A k \in 1 .. n : Ev.i[k] >= 0 /\ Ev.i[k] < n /\ Ev.r[k] = Ev.a[Ev.i[k] + 1])
   /\ UNCHANGED <<t, n>>
Dup == IsEvent("Dup") /\ Vec(Ev.r) /\ (\A k \in 1 .. n : Ev.r[k] = Ev.v)
   /\ UNCHANGED <<t, n>>
Zero == IsEvent("Zero") /\ Vec(Ev.r) /\ (\A k \in 1 .. n : Ev.r[k] = Zeros(Wide(t)))
   /\ UNCHANGED <<t, n>>
(* floating point with small multiples of 1/8, exact in either format *)
Arith == IsEvent("Arith") /\ Len(Ev.r) = n
   /\ (\A k \in 1 .. n : Ev.r[k] = (CASE Ev.op = "add" -> Ev.a[k] + Ev.b[k] [] Ev.op = "sub" -> Ev.a[k] - Ev.b[k] [] Ev.op = "mul" -> Ev.a[k] * Ev.b[k]))
   /\ UNCHANGED <<t, n>>
TraceNext == Begin \/ Un \/ Bin \/ Bsl \/ ClampE \/ Shuf \/ Dup \/ Zero \/ Arith
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
