------------------------------ MODULE GFTrace ------------------------------
(* Conformance of galois_field.hh: every recorded result must be the one     *)
(* the field prescribes.  Row events carry a whole row of an operation       *)
(* table (all second operands), Op events one operation.                     *)
EXTENDS TraceLib, GF
VARIABLE fld      \* <<M, P>> of the field whose tables are alive
tvars == <<l, fld>>
M == fld[1]
P == fld[2]
NN == N(fld[1])
TraceInit == l = 1 /\ fld = <<0, 0>>
Begin == IsEvent("Begin") /\ fld' = <<Ev.M, Ev.P>>
Keep == UNCHANGED fld
IsIdx(x) == x \in Int /\ x >= 0 /\ x < NN
(* x / y is the z with z*y = x; i # 0 *)
Quot(z, x, y) == IsElem(M, z) /\ Mul(M, P, z, y) = x
(* g, g*2, g*4, ... : a row over all discrete logarithms *)
Geometric(g, r) == Len(r) = NN /\ r[1] = g /\ \A k \in 1 .. NN-1 : IsElem(M, r[k]) /\ r[k+1] = XTime(M, P, r[k])
Falling(g, r) == Len(r) = NN /\ r[1] = g /\ \A k \in 1 .. NN-1 : IsElem(M, r[k+1]) /\ XTime(M, P, r[k+1]) = r[k]
Linear(g, r) == Len(r) = NN+1 /\ \A y \in 0 .. NN : r[y+1] = Mul(M, P, g, y)
Plus(r, z) == [k \in DOMAIN r |-> IF IsElem(M, r[k]) THEN r[k] ^^ z ELSE -1]
(* r is a row of op: first operand x, all second operands, third operand z *)
RowOk(op, x, z, r) ==
  CASE op = "mul" -> Linear(x, r)
    [] op = "add" -> Len(r) = NN+1 /\ \A y \in 0 .. NN : r[y+1] = x ^^ y
    [] op = "sub" -> Len(r) = NN+1 /\ \A y \in 0 .. NN : r[y+1] = x ^^ y
    [] op = "div" -> Len(r) = NN /\ \A y \in 1 .. NN : Quot(r[y], x, y)
    [] op = "eq"  -> Len(r) = NN+1 /\ \A y \in 0 .. NN : r[y+1] = (IF x = y THEN 1 ELSE 0)
    [] op = "ne"  -> Len(r) = NN+1 /\ \A y \in 0 .. NN : r[y+1] = (IF x = y THEN 0 ELSE 1)
    (* index operands: x is a discrete logarithm, and so is y or r *)
    [] op = "imul" -> Len(r) = NN /\ \A y \in 0 .. NN-1 : r[y+1] = (x + y) % NN
    [] op = "idiv" -> Len(r) = NN /\ \A y \in 0 .. NN-1 : r[y+1] = (x - y + NN) % NN
    [] op = "mulvi" -> Geometric(x, r)
    [] op = "muliv" -> Linear(Exp(M, P, x), r)
    [] op = "divvi" -> Falling(x, r)
    [] op = "diviv" -> Len(r) = NN /\ LET g == Exp(M, P, x) IN \A y \in 1 .. NN : Quot(r[y], g, y)
    [] op = "fmaii" -> Geometric(Exp(M, P, x), Plus(r, z))
    [] op = "fmaiv" -> Linear(Exp(M, P, x), Plus(r, z))
    [] op = "fmavi" -> Geometric(x, Plus(r, z))
    [] op = "fmavv" -> Linear(x, Plus(r, z))
    [] OTHER -> FALSE
Row == IsEvent("Row") /\ RowOk(Ev.op, Ev.x, Ev.z, Ev.r) /\ Keep
(* value() over all indices, index() over all nonzero values, rcp() of both *)
ExpRow == IsEvent("ExpRow") /\ Len(Ev.r) = NN /\ Ev.r[1] = 1
          /\ (\A k \in 1 .. NN-1 : IsElem(M, Ev.r[k]) /\ Ev.r[k+1] = XTime(M, P, Ev.r[k]))
          /\ Keep
LogRow == IsEvent("LogRow") /\ Len(Ev.r) = NN
          /\ (\A x \in 1 .. NN : IsIdx(Ev.r[x]) /\ Exp(M, P, Ev.r[x]) = x)
          /\ Keep
RcpRow == IsEvent("RcpRow") /\ Len(Ev.r) = NN
          /\ (\A x \in 1 .. NN : IsElem(M, Ev.r[x]) /\ Mul(M, P, Ev.r[x], x) = 1)
          /\ Keep
IRcpRow == IsEvent("IRcpRow") /\ Len(Ev.r) = NN
          /\ (\A x \in 0 .. NN-1 : Ev.r[x+1] = (NN - x) % NN)
          /\ Keep
(* single operations: x y z are operands, r the result *)
OpOk(op, x, y, z, r) ==
  CASE op = "add" -> r = x ^^ y
    [] op = "sub" -> r = x ^^ y
    [] op = "neg" -> r = x
    [] op = "mul" -> r = Mul(M, P, x, y)
    [] op = "div" -> Quot(r, x, y)
    [] op = "rcp" -> IsElem(M, r) /\ Mul(M, P, r, x) = 1
    [] op = "eq" -> r = (IF x = y THEN 1 ELSE 0)
    [] op = "ne" -> r = (IF x = y THEN 0 ELSE 1)
    [] op = "value" -> r = Exp(M, P, x)
    [] op = "index" -> IsIdx(r) /\ Exp(M, P, r) = x
    [] op = "imul" -> r = (x + y) % NN
    [] op = "idiv" -> r = (x - y + NN) % NN
    [] op = "ircp" -> r = (NN - x) % NN
    [] op = "mulvi" -> r = Mul(M, P, x, Exp(M, P, y))
    [] op = "muliv" -> r = Mul(M, P, Exp(M, P, x), y)
    [] op = "divvi" -> Quot(r, x, Exp(M, P, y))
    [] op = "diviv" -> Quot(r, Exp(M, P, x), y)
    [] op = "fmaii" -> r = Mul(M, P, Exp(M, P, x), Exp(M, P, y)) ^^ z
    [] op = "fmaiv" -> r = Mul(M, P, Exp(M, P, x), y) ^^ z
    [] op = "fmavi" -> r = Mul(M, P, x, Exp(M, P, y)) ^^ z
    [] op = "fmavv" -> r = Mul(M, P, x, y) ^^ z
    [] op = "muleq" -> r = Mul(M, P, x, y)
    [] op = "muleqvi" -> r = Mul(M, P, x, Exp(M, P, y))
    [] op = "addeq" -> r = x ^^ y
    [] op = "imuleq" -> r = (x + y) % NN
    [] op = "idiveq" -> r = (x - y + NN) % NN
    [] OTHER -> FALSE
Op == IsEvent("Op") /\ OpOk(Ev.op, Ev.x, Ev.y, Ev.z, Ev.r) /\ Keep
TraceNext == Begin \/ Row \/ ExpRow \/ LogRow \/ RcpRow \/ IRcpRow \/ Op
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
