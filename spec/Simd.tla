-------------------------------- MODULE Simd --------------------------------
(* What each vector operation does to a lane.  A lane of w bits is a         *)
(* sequence of 16 bit limbs, least significant first (one limb for 8 bits).  *)
(* Types: "s8" .. "s64", "u8" .. "u64", "f32", "f64".                        *)
EXTENDS Limbs
Wide(t) == CASE t \in {"s8", "u8"} -> 8 [] t \in {"s16", "u16"} -> 16 [] t \in {"s32", "u32", "f32"} -> 32 [] OTHER -> 64
IsFloat(t) == t \in {"f32", "f64"}
IsSigned(t) == t \in {"s8", "s16", "s32", "s64"}
IsLane(u, w) == Len(u) = (IF w < 16 THEN 1 ELSE w \div 16) /\ \A k \in 1 .. Len(u) : u[k] >= 0 /\ u[k] < (IF w = 8 THEN 256 ELSE 65536)
Trim(u, w) == IF w = 8 THEN <<(u[1] % 256)>> ELSE u
Zeros(w) == LZero(IF w < 16 THEN 1 ELSE w \div 16)
AllOnes(w) == IF w = 8 THEN <<255>> ELSE [k \in 1 .. w \div 16 |-> 65535]
One(w) == [k \in 1 .. (IF w < 16 THEN 1 ELSE w \div 16) |-> IF k = 1 THEN 1 ELSE 0]
TopBit(u, w) == LBit(u, w - 1)
LNot(u, w) == [k \in 1 .. Len(u) |-> (IF w = 8 THEN 255 ELSE 65535) - u[k]]
LAnd(u, v) == [k \in 1 .. Len(u) |-> u[k] & v[k]]
LOr(u, v) == [k \in 1 .. Len(u) |-> u[k] | v[k]]
AddL(u, v, w) == Trim(LAdd(u, v), w)
NegL(u, w) == AddL(LNot(u, w), One(w), w)
SubL(u, v, w) == AddL(u, NegL(v, w), w)
(* product modulo 2^w by bytes *)
Byte(u, k) == IF (k + 1) \div 2 > Len(u) THEN 0 ELSE IF k % 2 = 1 THEN u[(k + 1) \div 2] % 256 ELSE u[k \div 2] \div 256
MulL(u, v, w) ==
  LET nb == w \div 8
      cs == FoldLeft(LAMBDA st, k :
              LET c == st[1] + FoldLeft(LAMBDA s, j : s + Byte(u, j) * Byte(v, k + 1 - j), 0, [j \in 1 .. k |-> j])
              IN <<c \div 256, Append(st[2], c % 256)>>, <<0, <<>>>>, [k \in 1 .. nb |-> k])[2]
  IN IF w = 8 THEN cs ELSE [k \in 1 .. w \div 16 |-> cs[2 * k - 1] + 256 * cs[2 * k]]
(* ---- order ---- *)
ULess(u, v) == FoldLeft(LAMBDA acc, k : IF u[k] # v[k] THEN u[k] < v[k] ELSE acc, FALSE, [k \in 1 .. Len(u) |-> k])
SLess(u, v, w) == IF TopBit(u, w) # TopBit(v, w) THEN TopBit(u, w) = 1 ELSE ULess(u, v)
Magnitude(u, w) == [k \in 1 .. Len(u) |-> IF k = Len(u) THEN u[k] % 32768 ELSE u[k]]
FZero(u, w) == Magnitude(u, w) = Zeros(w)
FLess(u, v, w) == IF FZero(u, w) /\ FZero(v, w) THEN FALSE
                  ELSE IF TopBit(u, w) # TopBit(v, w) THEN TopBit(u, w) = 1
                  ELSE IF TopBit(u, w) = 1 THEN ULess(v, u) ELSE ULess(u, v)
Less(t, u, v) == IF IsFloat(t) THEN FLess(u, v, Wide(t)) ELSE IF IsSigned(t) THEN SLess(u, v, Wide(t)) ELSE ULess(u, v)
Same(t, u, v) == u = v \/ (IsFloat(t) /\ FZero(u, Wide(t)) /\ FZero(v, Wide(t)))
Mask(c, w) == IF c THEN AllOnes(w) ELSE Zeros(w)
FlipSign(u) == [k \in 1 .. Len(u) |-> IF k = Len(u) THEN u[k] ^^ 32768 ELSE u[k]]
FOne(t) == IF t = "f32" THEN <<0, 16256>> ELSE <<0, 0, 0, 16368>>
Negative(t, u) == IF IsFloat(t) THEN FlipSign(u) ELSE NegL(u, Wide(t))
LMin(t, u, v) == IF Less(t, v, u) THEN v ELSE u
LMax(t, u, v) == IF Less(t, u, v) THEN v ELSE u
(* ---- saturation, lanes of up to 16 bits ---- *)
ToInt(t, u) == IF IsSigned(t) /\ TopBit(u, Wide(t)) = 1 THEN u[1] - 2^Wide(t) ELSE u[1]
FromInt(v, w) == <<(IF v < 0 THEN v + 2^w ELSE v)>>
Saturate(t, v) == LET w == Wide(t)
                      hi == IF IsSigned(t) THEN 2^(w - 1) - 1 ELSE 2^w - 1
                      lo == IF IsSigned(t) THEN -(2^(w - 1)) ELSE 0
                  IN FromInt(IF v > hi THEN hi ELSE IF v < lo THEN lo ELSE v, w)
Smallest(w) == [k \in 1 .. (IF w < 16 THEN 1 ELSE w \div 16) |-> IF w = 8 THEN 128 ELSE IF k = w \div 16 THEN 32768 ELSE 0]
(* ---- lanes ---- *)
Unary(op, t, a) ==
  LET w == Wide(t) z == Zeros(w) IN
  CASE op = "neg" -> Negative(t, a)
    [] op = "abs" -> IF IsFloat(t) THEN Magnitude(a, w) ELSE IF Less(t, a, z) THEN NegL(a, w) ELSE a
    [] op = "qabs" -> IF a = Smallest(w) THEN LNot(Smallest(w), w) ELSE IF Less(t, a, z) THEN NegL(a, w) ELSE a
    [] op = "not" -> LNot(a, w)
    [] op = "same" -> a
    [] op = "signum" -> IF Same(t, a, z) THEN z ELSE IF Less(t, a, z) THEN Negative(t, IF IsFloat(t) THEN FOne(t) ELSE One(w))
                        ELSE IF IsFloat(t) THEN FOne(t) ELSE One(w)
    [] op = "cgtz" -> Mask(Less(t, z, a), w)
    [] op = "ceqz" -> Mask(Same(t, a, z), w)
    [] op = "cltz" -> Mask(Less(t, a, z), w)
    [] op = "clez" -> Mask(~Less(t, z, a), w)
Binary(op, t, a, b) ==
  LET w == Wide(t) z == Zeros(w) IN
  CASE op = "orr" -> LOr(a, b)
    [] op = "and" -> LAnd(a, b)
    [] op = "eor" -> LXor(a, b)
    [] op = "bic" -> LAnd(a, LNot(b, w))
    [] op = "cgt" -> Mask(Less(t, b, a), w)
    [] op = "ceq" -> Mask(Same(t, a, b), w)
    [] op = "min" -> LMin(t, a, b)
    [] op = "max" -> LMax(t, a, b)
    [] op = "add" -> AddL(a, b, w)
    [] op = "sub" -> SubL(a, b, w)
    [] op = "mul" -> MulL(a, b, w)
    [] op = "qadd" -> Saturate(t, ToInt(t, a) + ToInt(t, b))
    [] op = "qsub" -> Saturate(t, ToInt(t, a) - ToInt(t, b))
    [] op = "sign" -> IF Same(t, b, z) THEN z ELSE IF Less(t, b, z) THEN Negative(t, a) ELSE a
    [] op = "copysign" -> IF TopBit(a, w) = TopBit(b, w) THEN a ELSE FlipSign(a)
Comparisons == {"cgt", "ceq", "cgtz", "ceqz", "cltz", "clez"}
UnaryOps(t) == IF IsFloat(t) THEN {"neg", "abs", "same", "signum", "cgtz", "ceqz", "cltz", "clez"}
               ELSE IF IsSigned(t) THEN {"neg", "abs", "qabs", "same", "signum", "cgtz", "ceqz", "cltz", "clez"} ELSE {"not", "same"}
BinaryOps(t) == IF IsFloat(t) THEN {"cgt", "ceq", "min", "max", "sign", "copysign"}
                ELSE IF IsSigned(t) THEN {"cgt", "ceq", "min", "max", "add", "sub", "mul", "sign"} \union (IF Wide(t) <= 16 THEN {"qadd", "qsub"} ELSE {})
                ELSE {"orr", "and", "eor", "bic", "cgt"} \union (IF Wide(t) <= 16 THEN {"qsub"} ELSE {})
Clamp(t, x, a, b) == LMin(t, LMax(t, x, a), b)
Select(a, b, c, w) == LOr(LAnd(a, b), LAnd(LNot(a, w), c))
=============================================================================
