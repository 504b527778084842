------------------------------- MODULE Limbs -------------------------------
(* Words too wide for TLC's 32 bit integers.                                 *)
(*  - bit view: sequences of 0/1, least significant first                    *)
(*  - limb view: sequences of 16 bit limbs, least significant first (as the  *)
(*    harnesses record them)                                                 *)
(*  - big naturals: sequences of base 2^15 digits, least significant first   *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
IsLimbs(w, n) == Len(w) = n /\ \A k \in 1 .. n : w[k] \in Int /\ w[k] >= 0 /\ w[k] <= 65535
LXor(u, v) == [k \in 1 .. Len(u) |-> u[k] ^^ v[k]]
LZero(n) == [k \in 1 .. n |-> 0]
LShr1(u) == [k \in 1 .. Len(u) |-> shiftR(u[k], 1) + (IF k < Len(u) /\ u[k+1] % 2 = 1 THEN 32768 ELSE 0)]
LBit(u, i) == shiftR(u[(i \div 16) + 1], i % 16) % 2
(* bits of a limb word of width w *)
Bits(u, w) == [i \in 1 .. w |-> LBit(u, i-1)]
LimbOf(b, k) == FoldLeft(LAMBDA acc, i : 2*acc + (LET p == 16*(k-1) + 17 - i IN IF p <= Len(b) THEN b[p] ELSE 0), 0,
                         [i \in 1 .. 16 |-> i])
LimbsOf(b) == [k \in 1 .. (Len(b) + 15) \div 16 |-> LimbOf(b, k)]
(* shifts within the width of the word *)
BShl(b, n) == [i \in 1 .. Len(b) |-> IF i > n THEN b[i-n] ELSE 0]
BShr(b, n) == [i \in 1 .. Len(b) |-> IF i + n <= Len(b) THEN b[i+n] ELSE 0]
BXor(a, b) == [i \in 1 .. Len(a) |-> IF a[i] = b[i] THEN 0 ELSE 1]
(* shifts within the width of a limb word *)
Lmb(u, k) == IF k >= 1 /\ k <= Len(u) THEN u[k] ELSE 0
LShl(u, n) == LET q == n \div 16 r == n % 16 m == 2^r d == 2^(16-r) IN
  [k \in 1 .. Len(u) |-> ((Lmb(u, k-q) * m) % 65536) + (Lmb(u, k-q-1) \div d)]
LShr(u, n) == LET q == n \div 16 r == n % 16 m == 2^(16-r) d == 2^r IN
  [k \in 1 .. Len(u) |-> (Lmb(u, k+q) \div d) + ((Lmb(u, k+q+1) * (m % 65536)) % 65536)]
(* sum modulo 2^width of two limb words *)
LAdd(u, v) ==
  LET S == FoldLeft(LAMBDA acc, k : LET t == u[k] + v[k] + acc[1] IN <<t \div 65536, Append(acc[2], t % 65536)>>,
                    <<0, <<>>>>, [k \in 1 .. Len(u) |-> k]) IN S[2]
(* remainder of a limb word by a modulus of at most 32767 *)
LMod(u, m) == FoldLeft(LAMBDA acc, k : (acc * 65536 + u[Len(u) + 1 - k]) % m, 0, [k \in 1 .. Len(u) |-> k])
(* the same by a modulus below 2^23 *)
LModBig(u, m) == FoldLeft(LAMBDA acc, k : LET v == u[Len(u) + 1 - k] IN (((acc * 256 + (v \div 256)) % m) * 256 + (v % 256)) % m, 0,
                          [k \in 1 .. Len(u) |-> k])

(* ---- big naturals, base 2^15 ---- *)
Base == 32768
IsBig(a) == \A k \in 1 .. Len(a) : a[k] \in Int /\ a[k] >= 0 /\ a[k] < Base
Dig(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
BigEq(a, b) == \A k \in 1 .. Max2(Len(a), Len(b)) : Dig(a, k) = Dig(b, k)
BigLt(a, b) == LET n == Max2(Len(a), Len(b)) IN
  FoldLeft(LAMBDA acc, k : IF Dig(a, k) # Dig(b, k) THEN Dig(a, k) < Dig(b, k) ELSE acc, FALSE, [k \in 1 .. n |-> k])
BigAdd(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      S == FoldLeft(LAMBDA acc, k : LET t == Dig(a, k) + Dig(b, k) + acc[1] IN <<t \div Base, Append(acc[2], t % Base)>>,
                    <<0, <<>>>>, [k \in 1 .. n |-> k]) IN S[2]
(* a times one digit *)
BigMul1(a, d) ==
  LET S == FoldLeft(LAMBDA acc, k : LET t == Dig(a, k) * d + acc[1] IN <<t \div Base, Append(acc[2], t % Base)>>,
                    <<0, <<>>>>, [k \in 1 .. Len(a) + 1 |-> k]) IN S[2]
BigMul(a, b) == FoldLeft(LAMBDA acc, j : BigAdd(acc, LZero(j-1) \o BigMul1(a, b[j])), <<0>>, [j \in 1 .. Len(b) |-> j])
=============================================================================
