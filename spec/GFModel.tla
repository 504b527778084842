------------------------------ MODULE GFModel ------------------------------
(* Design model of galois_field.hh: the logarithm table construction as a    *)
(* state machine, and table based arithmetic (index addition with wrap by    *)
(* comparison in a TYPE of just W bits), against polynomial arithmetic.      *)
EXTENDS GF, FiniteSets
CONSTANTS MAXM
(* all primitive polynomials of degree 2..MAXM *)
Fields == {mp \in (2 .. MAXM) \X (4 .. 2^(MAXM+1)-1) :
             mp[2] >= Q(mp[1]) /\ mp[2] < 2*Q(mp[1]) /\ mp[2] % 2 = 1}
VARIABLES fld, i, a, exp, log, pc
vars == <<fld, i, a, exp, log, pc>>
M == fld[1]
P == fld[2]
NN == N(fld[1])
Init ==
  /\ fld \in {mp \in Fields : Primitive(mp[1], mp[2])}
  /\ i = 0 /\ a = 1 /\ pc = "fill"
  /\ exp = [k \in {NN} |-> 0]
  /\ log = [k \in {0} |-> NN]
Fill ==
  /\ pc = "fill" /\ i < NN
  /\ exp' = exp @@ (i :> a)
  /\ log' = log @@ (a :> i)
  /\ i' = i + 1 /\ a' = XTime(M, P, a)
  /\ UNCHANGED <<fld, pc>>
Filled == pc = "fill" /\ i = NN /\ a = 1 /\ pc' = "ready" /\ UNCHANGED <<fld, i, a, exp, log>>
Next == Fill \/ Filled
Spec == Init /\ [][Next]_vars
(* arithmetic in a type of W bits *)
Trunc(W, x) == x % 2^W
IdxMul(W, x, y) == LET t == Trunc(W, x + y) IN IF NN - x <= y THEN Trunc(W, t - NN + 2^W) ELSE t
IdxDiv(W, x, y) == LET t == Trunc(W, x - y + 2^W) IN IF x < y THEN Trunc(W, t + NN) ELSE t
IdxRcp(x) == IF x = 0 THEN 0 ELSE NN - x
TabMul(W, x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE exp[IdxMul(W, log[x], log[y])]
TabDiv(W, x, y) == IF x = 0 THEN 0 ELSE exp[IdxDiv(W, log[x], log[y])]
Ready == pc = "ready"
TablesInverse == Ready => /\ \A x \in 1 .. NN : exp[log[x]] = x /\ log[x] \in 0 .. NN-1
                          /\ \A x \in 0 .. NN-1 : log[exp[x]] = x
TableArithmetic == Ready => \A W \in {M, M+1} : \A x, y \in 0 .. NN :
    /\ TabMul(W, x, y) = Mul(M, P, x, y)
    /\ y # 0 => Mul(M, P, TabDiv(W, x, y), y) = x
    /\ x # 0 => Mul(M, P, exp[IdxRcp(log[x])], x) = 1
FieldAxioms == Ready => \A x, y \in 0 .. NN :
    /\ Mul(M, P, x, y) = Mul(M, P, y, x)
    /\ Mul(M, P, x, y) \in 0 .. NN
    /\ (x # 0 /\ y # 0) => Mul(M, P, x, y) # 0
    /\ \A z \in 0 .. NN : /\ Mul(M, P, x, y ^^ z) = Mul(M, P, x, y) ^^ Mul(M, P, x, z)
                          /\ Mul(M, P, x, Mul(M, P, y, z)) = Mul(M, P, Mul(M, P, x, y), z)
=============================================================================
