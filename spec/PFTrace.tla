------------------------------- MODULE PFTrace -------------------------------
(* Conformance of prime_field.hh.  Numbers are big naturals (base 2^15);     *)
(* q is the recorded quotient the claimed residue is checked with - a wrong  *)
(* result has no quotient that makes the equation hold.                      *)
EXTENDS TraceLib, PF
VARIABLE p
tvars == <<l, p>>
TraceInit == l = 1 /\ p = <<2>>
Begin == IsEvent("Begin") /\ p' = Ev.p
Keep == UNCHANGED p
One == <<1>>
(* the equation of each operation: what must be congruent to r, moved so     *)
(* that no subtraction is needed                                             *)
Exact(op, x, y, q, r) ==
  CASE op = "add" -> IsResidue(BigAdd(x, y), q, p, r)
    [] op = "sub" -> BigLt(r, p) /\ Congruent(BigAdd(r, y), q, p, x)
    [] op = "neg" -> BigLt(r, p) /\ Reduces(BigAdd(r, x), q, p, <<0>>)
    [] op = "mul" -> IsResidue(BigMul(x, y), q, p, r)
    [] op = "rcp" -> BigLt(r, p) /\ Reduces(BigMul(r, x), q, p, One)
    [] op = "div" -> BigLt(r, p) /\ Reduces(BigMul(r, y), q, p, x)
    [] op = "reduce" -> IsResidue(x, q, p, r)
    [] op = "ladd" -> Congruent(BigAdd(x, y), q, p, r)
    [] op = "lsub" -> Congruent(BigAdd(r, y), q, p, x)
    [] op = "lneg" -> Reduces(BigAdd(r, x), q, p, <<0>>)
    [] op = "lmul" -> Congruent(BigMul(x, y), q, p, r)
    [] op = "ldiv" -> Congruent(BigMul(r, y), q, p, x)
    [] OTHER -> FALSE
Op == IsEvent("Op") /\ IsBig(Ev.r) /\ Exact(Ev.op, Ev.x, Ev.y, Ev.q, Ev.r) /\ Keep
Eq == IsEvent("Eq") /\ Ev.eq = BigEq(Ev.x, Ev.y) /\ Ev.ne = ~BigEq(Ev.x, Ev.y) /\ Keep
(* powers: r[k] is x to the number formed by the first k bits of m (most     *)
(* significant first), each step a squaring and maybe a multiplication       *)
Pow == IsEvent("Pow")
  /\ Len(Ev.r) = Len(Ev.m)
  /\ (\A k \in 1 .. Len(Ev.m) :
       LET prev == IF k = 1 THEN One ELSE Ev.r[k-1]
           sq == BigMul(prev, prev) IN
       /\ IsBig(Ev.r[k])
       /\ IsResidue(IF Ev.m[k] = 1 THEN BigMul(sq, Ev.x) ELSE sq, Ev.q[k], p, Ev.r[k]))
  /\ Keep
(* small primes: whole rows with plain integers, all second operands *)
Row == IsEvent("Row") /\ LET P == Ev.P  x == Ev.x  r == Ev.r IN
  /\ Len(r) = P
  /\ \A y \in 0 .. P-1 : LET v == r[y+1] IN
       /\ v \in Int /\ v >= 0 /\ v < P
       /\ CASE Ev.op = "add" -> v = (x + y) % P
            [] Ev.op = "sub" -> v = (x - y + P) % P
            [] Ev.op = "mul" -> v = (x * y) % P
            [] Ev.op = "div" -> y = 0 \/ (v * y) % P = x
            [] Ev.op = "pow" -> TRUE
            [] OTHER -> FALSE
  /\ Ev.op = "pow" => /\ r[1] = 1 % P
                      /\ \A y \in 1 .. P-1 : r[y+1] = (r[y] * x) % P
  /\ Keep
TraceNext == Begin \/ Op \/ Eq \/ Pow \/ Row
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
