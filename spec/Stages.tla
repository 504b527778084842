------------------------------- MODULE Stages -------------------------------
(* From syndromes to the error pattern: shortest recurrences, roots of       *)
(* polynomials and patterns with given syndromes.  Polynomials are sequences *)
(* of coefficients, the constant one first.  A location is the index of a    *)
(* symbol in a word of full length, 0 the first transmitted.                 *)
EXTENDS RS
ValueAt(f, c, x) == HornerDef(f, Reverse(c), x)
(* the locator of location k vanishes at *)
RootOf(f, k) == TExp(f, k + 1)
Locations(f, c) == {k \in 0 .. N(f[1]) - 1 : ValueAt(f, c, RootOf(f, k)) = 0}
(* linear complexity of a sequence (Massey); polynomials have Len(s) + 1 coefficients *)
Massey(f, s) ==
  LET nr == Len(s)
      unit == [i \in 1 .. nr + 1 |-> IF i = 1 THEN 1 ELSE 0]
  IN FoldLeft(LAMBDA st, n1 :     \* C, B, L, m; n1 = number of elements seen with this one
       LET d == FoldLeft(LAMBDA acc, i : acc ^^ TMul(f, st.C[i + 1], s[n1 - i]), 0, [i \in 1 .. st.L + 1 |-> i - 1]) IN
       IF d = 0 THEN [st EXCEPT !.m = @ + 1]
       ELSE LET T == TLCEval([i \in 1 .. nr + 1 |-> IF i <= st.m THEN st.C[i] ELSE st.C[i] ^^ TMul(f, d, st.B[i - st.m])]) IN
            IF 2 * st.L <= n1 - 1
            THEN LET r == TInv(f, d) IN [C |-> T, B |-> TLCEval([i \in 1 .. nr + 1 |-> TMul(f, st.C[i], r)]), L |-> n1 - st.L, m |-> 1]
            ELSE [st EXCEPT !.C = T, !.m = @ + 1],
     [C |-> unit, B |-> unit, L |-> 0, m |-> 1], [n1 \in 1 .. nr |-> n1])
(* c, of degree at most L, makes up every element from the L before it *)
Generates(f, s, c, L) ==
  /\ c[1] = 1
  /\ \A i \in L + 2 .. Len(c) : c[i] = 0
  /\ \A n1 \in L + 1 .. Len(s) : FoldLeft(LAMBDA acc, i : acc ^^ TMul(f, c[i + 1], s[n1 - i]), 0, [i \in 1 .. L + 1 |-> i - 1]) = 0
(* trace of the field down to one bit; x^2 + x = a has solutions where it is zero *)
Trace1(f, a) == FoldLeft(LAMBDA acc, k : <<acc[1] ^^ acc[2], TMul(f, acc[2], acc[2])>>, <<0, a>>, [k \in 1 .. f[1] |-> k])[1]
(* does c1 + c2 x + c3 x^2 (c1, c3 # 0) have two different roots? *)
Splits(f, c) == c[2] # 0 /\ Trace1(f, TMul(f, TMul(f, c[3], c[1]), TInv(f, TMul(f, c[2], c[2])))) = 0
(* what the errors mags at locs do to the syndromes *)
PatternSyndromes(f, NR, FCR, locs, mags) ==
  LET x == TLCEval([k \in 1 .. Len(locs) |-> TExp(f, N(f[1]) - 1 - locs[k])]) IN
  FoldLeft(LAMBDA st, i : [sum |-> Append(st.sum, FoldLeft(LAMBDA acc, v : acc ^^ v, 0, st.at)),
                           at |-> TLCEval([k \in 1 .. Len(locs) |-> TMul(f, st.at[k], x[k])])],
    [sum |-> <<>>, at |-> [k \in 1 .. Len(locs) |-> TMul(f, mags[k], Pow(f[1], f[2], x[k], FCR))]],
    [i \in 1 .. NR |-> i]).sum
Different(s) == Cardinality({s[k] : k \in 1 .. Len(s)}) = Len(s)
Pairs(locs, mags) == {<<locs[k], mags[k]>> : k \in 1 .. Len(locs)}
(* syndromes s and erased locations era gave ret and this pattern *)
Sound(f, NR, FCR, s, era, ret, locs, mags) ==
  ret = -1 \/ /\ ret \in 1 .. NR /\ Len(locs) = ret /\ Len(mags) = ret
              /\ (\A k \in 1 .. ret : locs[k] \in 0 .. N(f[1]) - 1 /\ IsElem(f[1], mags[k]))
              /\ Different(locs)
              /\ (\A k \in 1 .. Len(era) : \E j \in 1 .. ret : locs[j] = era[k])
              /\ PatternSyndromes(f, NR, FCR, locs, mags) = s
=============================================================================
