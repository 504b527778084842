------------------------------ MODULE SimdModel ------------------------------
(* The lane operations of Simd.tla, over words of limbs, against ordinary    *)
(* arithmetic on the numbers the words stand for (8 bit: all pairs), and the *)
(* ways the vector units build operations they do not have:                  *)
(*  - comparisons, clamp and saturated absolute values from other operations *)
(*  - a shuffle of several blocks from block shuffles which give zero for an *)
(*    index with its high bit set and otherwise use only its low bits.       *)
EXTENDS Simd
CONSTANT STEP     \* second operands: every STEP-th value, and the extremes
VARIABLES a, done
vars == <<a, done>>
SV(x) == IF x > 127 THEN x - 256 ELSE x
Wrap(x) == (x + 65536) % 256
Seconds == {b \in 0 .. 255 : b % STEP = 0 \/ b \in {1, 127, 128, 129, 254, 255}}
S1(op) == Unary(op, "s8", <<a>>)[1]
S2(op, b) == Binary(op, "s8", <<a>>, <<b>>)[1]
U2(op, b) == Binary(op, "u8", <<a>>, <<b>>)[1]
M(c) == IF c THEN 255 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x > y THEN x ELSE y
Sg(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Init == a = 0 /\ done = FALSE
Next == IF a < 255 THEN a' = a + 1 /\ done' = FALSE ELSE ~done /\ done' = TRUE /\ a' = a
Spec == Init /\ [][Next]_vars
UnaryRight ==
  LET s == SV(a) IN
  /\ S1("neg") = Wrap(-s) /\ S1("abs") = Wrap(Abs(s)) /\ S1("qabs") = Abs(MaxI(s, -127)) /\ S1("signum") = Wrap(Sg(s))
  /\ S1("cgtz") = M(s > 0) /\ S1("ceqz") = M(s = 0) /\ S1("cltz") = M(s < 0) /\ S1("clez") = M(s <= 0)
  /\ S1("clez") = LOr(<<S1("ceqz")>>, <<S1("cltz")>>)[1]
  /\ Unary("not", "u8", <<a>>)[1] = 255 - a
BinaryRight == \A b \in Seconds :
  LET s == SV(a) t == SV(b) IN
  /\ S2("cgt", b) = M(s > t) /\ S2("ceq", b) = M(s = t) /\ SV(S2("min", b)) = Min2(s, t) /\ SV(S2("max", b)) = MaxI(s, t)
  /\ S2("add", b) = Wrap(s + t) /\ S2("sub", b) = Wrap(s - t) /\ S2("mul", b) = Wrap(s * t)
  /\ SV(S2("qadd", b)) = Min2(MaxI(s + t, -128), 127) /\ SV(S2("qsub", b)) = Min2(MaxI(s - t, -128), 127)
  /\ S2("sign", b) = Wrap(s * Sg(t))
  /\ U2("cgt", b) = M(a > b) /\ U2("qsub", b) = MaxI(a - b, 0)
  /\ U2("eor", b) = LOr(<<U2("bic", b)>>, LAnd(LNot(<<a>>, 8), <<b>>))[1] /\ U2("orr", b) = 255 - LAnd(LNot(<<a>>, 8), LNot(<<b>>, 8))[1]
  (* unsigned comparison from the signed one, by turning the top bit over *)
  /\ U2("cgt", b) = Binary("cgt", "s8", <<(a ^^ 128)>>, <<(b ^^ 128)>>)[1]
  /\ Select(<<U2("cgt", b)>>, <<a>>, <<b>>, 8)[1] = MaxI(a, b)
  /\ (t >= SV(0) => (SV(Clamp("s8", <<a>>, <<0>>, <<b>>)[1]) = MaxI(0, Min2(s, t))))
(* wider words: ring laws and order, with carries between the limbs *)
Spread(x, n) == [k \in 1 .. n |-> CASE (x + k) % 4 = 0 -> (x * 257) % 65536 [] (x + k) % 4 = 1 -> 65535 - x [] (x + k) % 4 = 2 -> (x * 129) % 65536 [] OTHER -> IF x % 2 = 0 THEN 0 ELSE 65535]
Types(n) == IF n = 1 THEN "s16" ELSE IF n = 2 THEN "s32" ELSE "s64"
WideRight == \A n \in {1, 2, 4} : \A b \in {0, 1, 37, 128, 200, 255} :
  LET w == 16 * n u == Spread(a, n) v == Spread(b, n) x == Spread((a + b) % 256, n) t == Types(n) IN
  /\ AddL(u, v, w) = AddL(v, u, w) /\ SubL(AddL(u, v, w), v, w) = u
  /\ MulL(u, v, w) = MulL(v, u, w) /\ MulL(u, One(w), w) = u /\ MulL(u, AllOnes(w), w) = NegL(u, w)
  /\ MulL(u, AddL(v, x, w), w) = AddL(MulL(u, v, w), MulL(u, x, w), w)
  /\ (u # v => (Less(t, u, v) # Less(t, v, u))) /\ ~Less(t, u, u)
  /\ (Less(t, u, v) /\ Less(t, v, x) => Less(t, u, x))
  /\ (TopBit(u, w) = 0 /\ TopBit(v, w) = 0 => (Less(t, u, v) = ULess(u, v)))
  /\ Unary("abs", t, u) = Unary("abs", t, Unary("neg", t, u))
(* shuffles built from blocks: blocks of H lanes, indices of 8 bits *)
Block(H, f, i) == IF i >= 128 THEN 0 ELSE f[(i % H) + 1]
Over(i, k) == IF SV(i) > k THEN i | 255 ELSE i
Built(H, n, f, i) ==
  LET part(k) == IF n = 1 THEN i ELSE IF k = n - 1 THEN Wrap(i - H * k)
                 ELSE Wrap(i - H * k) | (IF SV(i) > H * (k + 1) - 1 THEN 255 ELSE 0)
  IN FoldLeft(LAMBDA acc, k : acc | Block(H, [j \in 1 .. H |-> f[H * (k - 1) + j]], part(k - 1)), 0, [k \in 1 .. n |-> k])
Shuffle == \A n \in 1 .. 4 : a < 16 * n =>
   \A z \in {3, 7} : LET f == [j \in 1 .. 16 * n |-> ((z * j) % 255) + 1] IN Built(16, n, f, a) = f[a + 1]
=============================================================================
