-------------------------------- MODULE Polar --------------------------------
(* Polar codes: the transform, the encoders, successive cancellation and     *)
(* successive cancellation list decoding.  Bits are +1 (zero) and -1 (one);  *)
(* a decoder's hard decision may also be 0 (no information).                 *)
(* Words are sequences of length n = 2^level; position i sits at i+1.        *)
(* fz[i+1] = 1: position i is frozen.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC
PSign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
PMin(a, b) == IF a < b THEN a ELSE b
(* ---- transform ---- *)
(* Kronecker power of the kernel: codeword bit i depends on all j that have  *)
(* every bit of i set                                                        *)
Kronecker(u) == [x \in 1 .. Len(u) |->
  FoldLeft(LAMBDA pr, y : IF ((x - 1) & (y - 1)) = x - 1 THEN pr * u[y] ELSE pr, 1, [y \in 1 .. Len(u) |-> y])]
Combine(hl, hr) == [x \in 1 .. 2 * Len(hl) |-> IF x <= Len(hl) THEN hl[x] * hr[x] ELSE hr[x - Len(hl)]]
RECURSIVE Butterfly(_)
Butterfly(u) == IF Len(u) = 1 THEN u
                ELSE TLCEval(Combine(Butterfly(SubSeq(u, 1, Len(u) \div 2)), Butterfly(SubSeq(u, Len(u) \div 2 + 1, Len(u)))))
Transform(u) == IF Len(u) <= 128 THEN Kronecker(u) ELSE Butterfly(u)
Free(fz) == Len(fz) - FoldLeft(LAMBDA acc, v : acc + v, 0, fz)
(* the bits at the free positions, in order *)
Extract(w, fz) == FoldLeft(LAMBDA s, x : IF fz[x] = 0 THEN Append(s, w[x]) ELSE s, <<>>, [x \in 1 .. Len(fz) |-> x])
(* ---- encoders ---- *)
Place(msg, fz) == FoldLeft(LAMBDA st, x : IF fz[x] = 1 THEN <<Append(st[1], 1), st[2]>> ELSE <<Append(st[1], msg[st[2]]), st[2] + 1>>,
                           <<<<>>, 1>>, [x \in 1 .. Len(fz) |-> x])[1]
PlainOK(msg, fz, cw) == cw = Transform(Place(msg, fz))
SystematicOK(msg, fz, cw) ==
  /\ \A x \in 1 .. Len(cw) : cw[x] \in {-1, 1}
  /\ \E u \in {Transform(cw)} : \A x \in 1 .. Len(fz) : fz[x] = 1 => u[x] = 1
  /\ Extract(cw, fz) = msg
(* a free position carries the product of the message bits since the last    *)
(* such position after the first "first" and then every "stride" bits        *)
PlaceParity(msg, fz, stride, first) ==
  FoldLeft(LAMBDA st, x :   \* <<bits, next message bit, bits to go, parity>>
      IF fz[x] = 1 THEN [st EXCEPT ![1] = Append(@, 1)]
      ELSE IF st[3] > 0 THEN <<Append(st[1], msg[st[2]]), st[2] + 1, st[3] - 1, st[4] * msg[st[2]]>>
      ELSE <<Append(st[1], st[4]), st[2], stride, 1>>,
    <<<<>>, 1, first, 1>>, [x \in 1 .. Len(fz) |-> x])[1]
(* number of message bits of such a code *)
ParityMessage(fz, stride, first) ==
  FoldLeft(LAMBDA st, x : IF fz[x] = 1 THEN st ELSE IF st[2] > 0 THEN <<st[1] + 1, st[2] - 1>> ELSE <<st[1], stride>>,
    <<0, first>>, [x \in 1 .. Len(fz) |-> x])[1]
ParityOK(msg, fz, stride, first, cw) ==
  Len(msg) = ParityMessage(fz, stride, first) /\ cw = Transform(PlaceParity(msg, fz, stride, first))
(* the same where nothing but the first z positions are frozen (stride > 0): *)
(* which positions carry -1 when the message bits with these indices do      *)
PrefixParity(n, z, stride, first, minus) ==
  LET at(k) == z + (IF k < first THEN k ELSE k + 1 + ((k - first) \div stride))
      run(k) == IF k < first THEN 0 ELSE 1 + ((k - first) \div stride)
      odd == {g \in {run(k) : k \in minus} : (Cardinality({k \in minus : run(k) = g}) % 2) = 1}
      close == {z + first + g * (stride + 1) : g \in odd}
  IN {at(k) : k \in minus} \cup {q \in close : q < n}
PrefixMessage(n, z, stride, first) ==
  IF n - z <= first THEN n - z ELSE n - z - 1 - ((n - z - 1 - first) \div (stride + 1))
(* ---- arithmetic: "i8" saturating bytes, "v8" the same in vectors, "fl" ---- *)
PClip(v) == IF v > 127 THEN 127 ELSE IF v < -127 THEN -127 ELSE v
PAbs(ar, v) == LET a == IF v < 0 THEN -v ELSE v IN IF ar # "fl" /\ a > 127 THEN 127 ELSE a
CheckLLR(ar, a, b) == PSign(a) * PSign(b) * PMin(PAbs(ar, a), PAbs(ar, b))
BitLLR(ar, h, a, b) == IF ar = "fl" THEN h * a + b
                       ELSE IF ar = "i8" THEN PClip(h * a + b)
                       ELSE PClip(h * (IF a < -127 THEN -127 ELSE a) + b)
LeftLLR(ar, s) == LET n == Len(s) \div 2 IN TLCEval([x \in 1 .. n |-> CheckLLR(ar, s[x], s[x + n])])
RightLLR(ar, s, h) == LET n == Len(s) \div 2 IN TLCEval([x \in 1 .. n |-> BitLLR(ar, h[x], s[x], s[x + n])])
(* ---- successive cancellation: <<hard decisions, message>> ---- *)
AllFrozen(fz, off, n) == \A x \in off + 1 .. off + n : fz[x] = 1
AllFree(fz, off, n) == \A x \in off + 1 .. off + n : fz[x] = 0
(* textbook, bit by bit *)
RECURSIVE SCBits(_, _, _, _)
SCBits(ar, s, fz, off) ==
  IF Len(s) = 1 THEN (IF fz[off + 1] = 1 THEN <<<<1>>, <<>>>> ELSE <<<<PSign(s[1])>>, <<PSign(s[1])>>>>)
  ELSE LET lf == SCBits(ar, LeftLLR(ar, s), fz, off)
           rt == SCBits(ar, RightLLR(ar, s, lf[1]), fz, off + Len(s) \div 2)
       IN <<TLCEval(Combine(lf[1], rt[1])), lf[2] \o rt[2]>>
(* Blocks of up to 32 free positions are decided by their own soft values.   *)
(* That makes a difference only where soft values are exactly zero: there    *)
(* bit by bit decisions lose the sign of the other value (see PolarModel).   *)
FreeBlock == 32
RECURSIVE SC(_, _, _, _, _)
SC(ar, s, fz, off, top) ==
  LET n == Len(s) IN
  IF ~top /\ n <= FreeBlock /\ AllFree(fz, off, n) THEN
    LET hd == [x \in 1 .. n |-> PSign(s[x])] IN <<hd, Butterfly(hd)>>
  ELSE IF n <= FreeBlock /\ AllFrozen(fz, off, n) THEN <<[x \in 1 .. n |-> 1], <<>>>>
  ELSE LET lf == SC(ar, LeftLLR(ar, s), fz, off, FALSE)
           rt == SC(ar, RightLLR(ar, s, lf[1]), fz, off + n \div 2, FALSE)
       IN <<TLCEval(Combine(lf[1], rt[1])), lf[2] \o rt[2]>>
SCDecode(ar, s, fz) == SC(ar, s, fz, 0, TRUE)[2]
(* ---- list decoding ---- *)
(* A path is <<metric, message, parity>>.  Forks are ranked by metric, equal *)
(* ones in the order of their parents, the decision +1 before -1.            *)
Against(s, h) == IF h = 1 THEN (IF s < 0 THEN -s ELSE 0) ELSE (IF s < 0 THEN 0 ELSE s)
ByMetric(forks) == SortSeq(forks, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] > b[3]))))
Take(sq, n) == IF Len(sq) > n THEN SubSeq(sq, 1, n) ELSE sq
(* blocks of frozen positions up to this size are weighed as a whole *)
FrozenBlock == 32
Identity(n) == [k \in 1 .. n |-> k]
Forks(S, P) == [x \in 1 .. 2 * Len(P) |->
    LET k == (x + 1) \div 2  h == IF x % 2 = 1 THEN 1 ELSE -1 IN <<P[k][1] + Against(S[k][1], h), k, h>>]
Forced(S, P) == [k \in 1 .. Len(P) |-> <<P[k][1] + Against(S[k][1], P[k][3]), k, P[k][3]>>]
(* S: soft values per path; returns <<hard decisions per path, paths, parent *)
(* of each path, message bits to go until the next parity position>>;        *)
(* stride < 0: no parity positions                                           *)
RECURSIVE LD(_, _, _, _, _, _, _, _)
LD(ar, S, P, fz, off, L, stride, togo) ==
  LET n == Len(S[1]) IN
  IF n <= FrozenBlock /\ AllFrozen(fz, off, n) THEN
    <<[k \in 1 .. Len(P) |-> [x \in 1 .. n |-> 1]],
      TLCEval([k \in 1 .. Len(P) |-> <<P[k][1] + FoldLeft(LAMBDA acc, v : acc + Against(v, 1), 0, S[k]), P[k][2], P[k][3]>>]),
      Identity(Len(P)), togo>>
  ELSE IF n = 1 THEN
    IF stride >= 0 /\ togo = 0 THEN
      LET f == TLCEval(ByMetric(Forced(S, P))) IN
      <<[k \in 1 .. Len(f) |-> <<f[k][3]>>], [k \in 1 .. Len(f) |-> <<f[k][1], P[f[k][2]][2], 1>>], [k \in 1 .. Len(f) |-> f[k][2]], stride>>
    ELSE
      LET f == TLCEval(Take(ByMetric(Forks(S, P)), L)) IN
      <<[k \in 1 .. Len(f) |-> <<f[k][3]>>], TLCEval([k \in 1 .. Len(f) |-> <<f[k][1], Append(P[f[k][2]][2], f[k][3]), P[f[k][2]][3] * f[k][3]>>]),
        [k \in 1 .. Len(f) |-> f[k][2]], togo - 1>>
  ELSE
    LET lf == LD(ar, TLCEval([k \in 1 .. Len(P) |-> LeftLLR(ar, S[k])]), P, fz, off, L, stride, togo)
        rt == LD(ar, TLCEval([k \in 1 .. Len(lf[3]) |-> RightLLR(ar, S[lf[3][k]], lf[1][k])]), lf[2], fz, off + n \div 2, L, stride, lf[4])
    IN <<TLCEval([k \in 1 .. Len(rt[3]) |-> TLCEval(Combine(lf[1][rt[3][k]], rt[1][k]))]), rt[2],
         TLCEval([k \in 1 .. Len(rt[3]) |-> lf[3][rt[3][k]]]), rt[4]>>
(* the surviving paths in order; level 5 as a whole is never one block *)
ListPaths(ar, s, fz, L, stride, first) == LD(ar, <<s>>, <<<<0, <<>>, 1>>>>, fz, 0, L, stride, first)[2]
RECURSIVE RankOfPath(_, _)
RankOfPath(P, k) == IF k = 1 THEN 0 ELSE RankOfPath(P, k - 1) + (IF P[k][1] # P[k - 1][1] THEN 1 ELSE 0)
(* lanes beyond the surviving paths are unspecified *)
ListOK(ar, s, fz, L, stride, first, msgs, ranks) ==
  LET P == TLCEval(ListPaths(ar, s, fz, L, stride, first)) IN
  /\ Len(msgs) = L
  /\ \A k \in 1 .. Len(P) : msgs[k] = P[k][2]
  /\ (ranks # <<>> => \A k \in 1 .. Len(P) : ranks[k] = RankOfPath(P, k))
=============================================================================
