---------------------------- MODULE PolarDecModel ----------------------------
(* Successive cancellation and list decoding as machines that decide one     *)
(* position per step from the definition of the soft value of a position     *)
(* given all earlier decisions.                                              *)
EXTENDS Polar
CONSTANTS LEVEL, VALS, LISTS, PARITY    \* VALS selects the soft alphabet
Alphabet == CASE VALS = 1 -> {-1, 1} [] VALS = 2 -> {-2, 1} [] VALS = 3 -> {-1, 0, 2} [] VALS = 4 -> {-2, -1, 1, 2}
            [] VALS = 5 -> {-2, -1, 0, 1, 3} [] VALS = 6 -> {-128, -100, 50, 127} [] VALS = 7 -> {-3, -1, 2}
Arith == IF VALS = 6 THEN {"i8", "v8"} ELSE {"fl"}
n == 2^LEVEL
VARIABLES frz, soft, ar, L, stride, first, pos, paths, togo, saved
vars == <<frz, soft, ar, L, stride, first, pos, paths, togo, saved>>
(* soft value of the position after the decided ones *)
RECURSIVE Value(_, _, _)
Value(arith, s, u) ==
  IF Len(s) = 1 THEN s[1]
  ELSE LET h == Len(s) \div 2 IN
       IF Len(u) < h THEN Value(arith, LeftLLR(arith, s), u)
       ELSE Value(arith, RightLLR(arith, s, Butterfly(SubSeq(u, 1, h))), SubSeq(u, h + 1, Len(u)))
(* L = 0: successive cancellation *)
Init == /\ frz \in [1 .. n -> {0, 1}] /\ soft \in [1 .. n -> Alphabet] /\ ar \in Arith
        /\ L \in (IF LISTS = 0 THEN {0} ELSE IF LISTS = 1 THEN {1, 2, 2^n} ELSE {1, 3, 2^n})
        /\ (IF L > 0 /\ PARITY > 0 THEN stride \in {0, 1, PARITY} /\ first \in {0, 1, PARITY} ELSE stride = -1 /\ first = 0)
        /\ pos = 0 /\ togo = first
        /\ paths = <<<<0, <<>>, <<>>, 1>>>>      \* metric, decisions, message, parity
        /\ saved = [x \in 1 .. n |-> soft[x]]
Keep == UNCHANGED <<frz, soft, ar, L, stride, first, saved>>
V(k) == Value(ar, saved, paths[k][2])
Fixed(k, h) == <<paths[k][1] + Against(V(k), h), Append(paths[k][2], h), paths[k][3], paths[k][4]>>
Frozen1 == /\ pos < n /\ frz[pos + 1] = 1 /\ pos' = pos + 1
           /\ paths' = [k \in 1 .. Len(paths) |-> Fixed(k, 1)]
           /\ togo' = togo /\ Keep
Decide == /\ pos < n /\ frz[pos + 1] = 0 /\ L = 0 /\ pos' = pos + 1
          /\ paths' = <<<<0, Append(paths[1][2], PSign(V(1))), Append(paths[1][3], PSign(V(1))), 1>>>>
          /\ togo' = togo /\ Keep
(* candidates in the order of their parents, +1 first, sorted stably *)
Cheapest(c, m) == LET order == SortSeq([x \in 1 .. Len(c) |-> x], LAMBDA x, y : c[x][1] < c[y][1] \/ (c[x][1] = c[y][1] /\ x < y))
                  IN [x \in 1 .. (IF Len(c) < m THEN Len(c) ELSE m) |-> c[order[x]]]
Fork == /\ pos < n /\ frz[pos + 1] = 0 /\ L > 0 /\ ~(stride >= 0 /\ togo = 0) /\ pos' = pos + 1
        /\ paths' = Cheapest([x \in 1 .. 2 * Len(paths) |->
             LET k == (x + 1) \div 2 h == IF x % 2 = 1 THEN 1 ELSE -1 f == Fixed(k, h)
             IN <<f[1], f[2], Append(f[3], h), f[4] * h>>], L)
        /\ togo' = togo - 1 /\ Keep
Check == /\ pos < n /\ frz[pos + 1] = 0 /\ L > 0 /\ stride >= 0 /\ togo = 0 /\ pos' = pos + 1
         /\ paths' = Cheapest([k \in 1 .. Len(paths) |-> LET f == Fixed(k, paths[k][4]) IN <<f[1], f[2], f[3], 1>>], L)
         /\ togo' = stride /\ Keep
Next == Frozen1 \/ Decide \/ Fork \/ Check
Spec == Init /\ [][Next]_vars
(* ---- *)
Done == pos = n
fr == [x \in 1 .. n |-> frz[x]]
(* the soft values inside a tree of blocks, are any of them zero? *)
RECURSIVE ZeroFree(_, _)
ZeroFree(s, u) == /\ \A x \in 1 .. Len(s) : s[x] # 0
                  /\ Len(s) = 1 \/ (/\ ZeroFree(LeftLLR(ar, s), SubSeq(u, 1, Len(s) \div 2))
                                    /\ ZeroFree(RightLLR(ar, s, Butterfly(SubSeq(u, 1, Len(s) \div 2))), SubSeq(u, Len(s) \div 2 + 1, Len(u))))
SC1 == Done /\ L = 0
Textbook == SC1 => paths[1][3] = SCBits(ar, saved, fr, 0)[2]
Shortcut == SC1 /\ ZeroFree(saved, paths[1][2]) => SCDecode(ar, saved, fr) = paths[1][3] /\ SC(ar, saved, fr, 0, FALSE)[2] = paths[1][3]
(* a codeword of this code decodes to its message, whatever the magnitudes *)
Hard == [x \in 1 .. n |-> PSign(saved[x])]
InCode == (\A x \in 1 .. n : saved[x] # 0) /\ \A x \in 1 .. n : fr[x] = 1 => Transform(Hard)[x] = 1
Noiseless == Done /\ stride < 0 /\ InCode => paths[1][3] = Extract(Transform(Hard), fr) /\ SCDecode(ar, saved, fr) = paths[1][3]
(* ---- lists ---- *)
Ordered == \A k \in 2 .. Len(paths) : L > 0 /\ pos > 0 /\ frz[pos] = 0 => paths[k - 1][1] <= paths[k][1]
Distinct == \A k \in 1 .. Len(paths), m \in 1 .. Len(paths) : k # m => paths[k][2] # paths[m][2]
Mismatch(w) == FoldLeft(LAMBDA acc, x : acc + Against(saved[x], w[x]), 0, [x \in 1 .. n |-> x])
(* the metric of a finished path is the weight of the soft values against its codeword *)
Metric == Done /\ L > 0 /\ ar = "fl" => \A k \in 1 .. Len(paths) : paths[k][1] = Mismatch(Transform(paths[k][2]))
Follows(u) == /\ \A x \in 1 .. n : (fr[x] = 1 => u[x] = 1)
              /\ (stride >= 0 => FoldLeft(LAMBDA st, x : IF fr[x] = 1 THEN st
                           ELSE IF st[2] > 0 THEN <<st[1], st[2] - 1, st[3] * u[x]>>
                           ELSE <<st[1] /\ st[3] = u[x], stride, 1>>, <<TRUE, first, 1>>, [x \in 1 .. n |-> x])[1])
InSet == Done /\ L > 0 => \A k \in 1 .. Len(paths) : Follows(paths[k][2])
(* a list of everything holds every codeword, the best one first *)
Complete == (Done /\ L = 2^n) =>
   /\ Len(paths) = 2^(IF stride >= 0 THEN ParityMessage(fr, stride, first) ELSE Free(fr))
   /\ (frz[n] = 0 => \A u \in [1 .. n -> {1, -1}] : Follows(u) => paths[1][1] <= Mismatch(Transform([x \in 1 .. n |-> u[x]])))
Best == Done /\ L = 2^n /\ ar = "fl" => \A u \in [1 .. n -> {1, -1}] : Follows(u) =>
           \E k \in 1 .. Len(paths) : paths[k][1] <= Mismatch(Transform([x \in 1 .. n |-> u[x]]))
(* a list of one is successive cancellation *)
Single == Done /\ L = 1 /\ stride < 0 /\ ZeroFree(saved, paths[1][2]) => paths[1][3] = SCBits(ar, saved, fr, 0)[2]
(* the recursive formulation used to judge the code *)
Shape(s) == [k \in 1 .. Len(s) |-> <<s[k][1], s[k][2]>>]
Recursive == Done /\ L > 0 /\ ar = "fl" =>
   Shape(ListPaths(ar, saved, fr, L, stride, first)) = [k \in 1 .. Len(paths) |-> <<paths[k][1], paths[k][3]>>]
(* A code may be decoded as the only block with free positions of a larger   *)
(* one: where the way to it goes right, the soft values of both halves add   *)
(* up to its own, where it goes left, the other half has larger ones and     *)
(* both may have their signs flipped.                                        *)
Ones == [x \in 1 .. n |-> 1]
Embedded == Done /\ (\A x \in 1 .. n : saved[x] > -128) =>
  /\ \A a \in {0, 1} : LET s == [x \in 1 .. n |-> a] \o [x \in 1 .. n |-> saved[x] - a]  f == Ones \o fr IN
       IF L = 0 THEN SCBits(ar, s, f, 0)[2] = paths[1][3]
       ELSE [k \in 1 .. Len(paths) |-> paths[k][3]] = [k \in 1 .. Len(paths) |-> ListPaths(ar, s, f, L, stride, first)[k][2]]
  /\ L = 0 => \A sg \in {1, -1}, first1 \in BOOLEAN :
       LET o == [x \in 1 .. n |-> 127 * sg]  v == [x \in 1 .. n |-> sg * saved[x]] IN
       SCBits(ar, IF first1 THEN o \o v ELSE v \o o, fr \o Ones, 0)[2] = paths[1][3]
=============================================================================
