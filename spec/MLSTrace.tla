------------------------------ MODULE MLSTrace ------------------------------
EXTENDS TraceLib, MLS
VARIABLES poly, reg, known      \* known: the register's value is determined
tvars == <<l, poly, reg, known>>
TraceInit == l = 1 /\ poly = 3 /\ reg = 1 /\ known = TRUE
Begin == IsEvent("Begin") /\ poly' = Ev.poly /\ reg' = Ev.reg /\ known' = TRUE
Draw == IsEvent("Draw") /\ known
  /\ \E e \in {FoldLeft(LAMBDA acc, k : <<Step(poly, acc[1]), acc[2] /\ Ev.bits[k] = Out(poly, acc[1])>>,
                       <<reg, TRUE>>, [k \in 1 .. Len(Ev.bits) |-> k])} :
     e[2] /\ reg' = e[1]
  /\ UNCHANGED <<poly, known>>
Reset == IsEvent("Reset") /\ reg' = Ev.r /\ known' = TRUE /\ UNCHANGED poly
(* the period test; afterwards a good register is back at its start *)
Bad == IsEvent("Bad") /\ Ev.ret = ~Maximal(poly, Ev.r)
  /\ reg' = Ev.r /\ known' = ~Ev.ret /\ UNCHANGED poly
(* many polynomials at once *)
BadRow == IsEvent("BadRow")
  /\ (\A k \in 1 .. Len(Ev.ret) : Ev.ret[k] = (IF Maximal(Ev.from + k - 1, Ev.r) THEN 0 ELSE 1))
  /\ UNCHANGED <<poly, reg, known>>
TraceNext == Begin \/ Draw \/ Reset \/ Bad \/ BadRow
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
