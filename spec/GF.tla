-------------------------------- MODULE GF --------------------------------
(* Binary extension fields GF(2^M) with a primitive polynomial P, elements   *)
(* written as naturals below 2^M (bit i = coefficient of x^i).               *)
EXTENDS Integers, Sequences, Bitwise, TLC
Q(M) == 2^M
N(M) == 2^M - 1
Elem(M) == 0 .. N(M)
IsElem(M, a) == a \in Int /\ a >= 0 /\ a <= N(M)
Bit(a, i) == shiftR(a, i) % 2
(* multiplication by x *)
XTime(M, P, a) == IF a >= 2^(M-1) THEN (2*a) ^^ P ELSE 2*a
RECURSIVE MulR(_, _, _, _, _)
MulR(M, P, a, b, acc) ==
  IF b = 0 THEN acc
  ELSE MulR(M, P, XTime(M, P, a), b \div 2, IF b % 2 = 1 THEN acc ^^ a ELSE acc)
(* product of two polynomials modulo P: the definition of the field *)
Mul(M, P, a, b) == MulR(M, P, a, b, 0)
RECURSIVE PowR(_, _, _, _, _)
PowR(M, P, a, n, acc) ==
  IF n = 0 THEN acc
  ELSE PowR(M, P, Mul(M, P, a, a), n \div 2, IF n % 2 = 1 THEN Mul(M, P, acc, a) ELSE acc)
Pow(M, P, a, n) == PowR(M, P, a, n, 1)
(* the element with discrete logarithm i *)
Exp(M, P, i) == Pow(M, P, 2, i)
Inv(M, P, a) == Pow(M, P, a, Q(M) - 2)
Primitive(M, P) ==
  /\ Exp(M, P, N(M)) = 1
  /\ \A d \in 1 .. N(M)-1 : N(M) % d = 0 => Exp(M, P, d) # 1
(* tables as sequences, built by iterating XTime; only for small M *)
ExpTable(M, P) ==
  LET F[i \in 0 .. N(M)-1] == IF i = 0 THEN <<1>>
        ELSE Append(F[i-1], XTime(M, P, F[i-1][i])) IN F[N(M)-1]
=============================================================================
