----------------------------- MODULE StagesModel -----------------------------
(* The claims behind the stages, for every short sequence, every quadratic   *)
(* and every pattern within capacity over a small field.                     *)
EXTENDS Stages
CONSTANTS M, P, NR, FCR
f == <<M, P>>
E == 0 .. N(M)
VARIABLES kind, s, q, locs, mags
vars == <<kind, s, q, locs, mags>>
None == <<>>
(* sequences grow by an element, patterns by an error *)
Init == /\ locs = <<>> /\ mags = <<>> /\ s = <<>>
        /\ \/ kind = "sequence" /\ q = None
           \/ kind = "quadratic" /\ \E a \in 1 .. N(M), b \in E, c \in 1 .. N(M) : q = <<c, b, a>>
           \/ kind = "pattern" /\ q = None
Grow == kind = "sequence" /\ Len(s) < NR /\ (\E v \in E : s' = Append(s, v)) /\ UNCHANGED <<kind, q, locs, mags>>
Err == /\ kind = "pattern" /\ 2 * Len(locs) + 2 <= NR
       /\ \E k \in 0 .. N(M) - 1, v \in 1 .. N(M) :
            /\ (\A j \in 1 .. Len(locs) : locs[j] < k)
            /\ locs' = Append(locs, k) /\ mags' = Append(mags, v)
       /\ s' = PatternSyndromes(f, NR, FCR, locs', mags') /\ UNCHANGED <<kind, q>>
Next == Grow \/ Err
Spec == Init /\ [][Next]_vars
(* ---- *)
Coeffs(d) == [1 .. d -> E]
Possible(L) == \E c \in Coeffs(L) : Generates(f, s, [i \in 1 .. Len(s) + 1 |-> IF i = 1 THEN 1 ELSE IF i <= L + 1 THEN c[i - 1] ELSE 0], L)
Shortest == kind = "sequence" /\ Len(s) > 0 =>
  \E r \in {Massey(f, s)} : Generates(f, s, r.C, r.L) /\ r.L <= Len(s) /\ \A L \in 0 .. r.L - 1 : ~Possible(L)
(* adding up the bits of a product chain decides solvability *)
Halves == kind = "quadratic" => Cardinality(Locations(f, q)) = (IF Splits(f, q) THEN 2 ELSE IF q[2] = 0 THEN 1 ELSE 0)
Count == kind = "quadratic" /\ q[2] = 0 => Cardinality({b \in E : Splits(f, <<q[1], b, q[3]>>)}) = (N(M) - 1) \div 2
(* x and x + 1 solve x^2 + x = a together, so the even one says it all *)
Solve2(a) == {x \in E : (TMul(f, x, x) ^^ x) = a}
Even == kind = "quadratic" =>
  LET a == TMul(f, q[1], q[3]) IN \A x \in Solve2(a) : (x ^^ 1) \in Solve2(a) /\ Cardinality(Solve2(a)) = 2
Closed == kind = "quadratic" /\ q[2] # 0 =>
  LET ba == TMul(f, q[2], TInv(f, q[3]))
      a == TMul(f, TMul(f, q[3], q[1]), TInv(f, TMul(f, q[2], q[2])))
  IN {RootOf(f, k) : k \in Locations(f, q)} = {TMul(f, ba, x) : x \in Solve2(a)}
(* the recurrence of a pattern's syndromes has the roots of its locations *)
Locator == kind = "pattern" /\ Len(locs) > 0 =>
  \E r \in {Massey(f, s)} : r.L = Len(locs) /\ r.C[r.L + 1] # 0 /\ Locations(f, r.C) = {locs[k] : k \in 1 .. Len(locs)}
(* the syndromes are those of the word with these errors *)
AsWord == kind = "pattern" =>
  LET w == [k \in 1 .. N(M) |-> FoldLeft(LAMBDA acc, j : IF locs[j] = k - 1 THEN mags[j] ELSE acc, 0, [j \in 1 .. Len(locs) |-> j])]
  IN Len(locs) > 0 => s = Syndromes(f, NR, FCR, w)
=============================================================================
