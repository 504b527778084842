------------------------------ MODULE OSDModel ------------------------------
(* Design model of the ordered statistics decoder: sorting, row echelon form *)
(* with column pivoting, back substitution, then flipping through all error  *)
(* patterns in depth first order with a running best and second best.        *)
EXTENDS OSD
CONSTANTS N, K, O, MAXMAG
Low == -100000
VARIABLES gen, soft, G, perm, col, phase, cw, todo, best, next, cand
vars == <<gen, soft, G, perm, col, phase, cw, todo, best, next, cand>>
Mats == {g \in [1 .. K -> [1 .. N -> {0, 1}]] : FullRank(g)}
(* depth first order of the nonempty subsets of at most O rows *)
RECURSIVE Paths(_, _)
Paths(from, depth) ==
  IF depth = 0 \/ from > K THEN <<>>
  ELSE FoldLeft(LAMBDA acc, j : acc \o <<{j}>> \o [x \in 1 .. Len(Paths(j+1, depth-1)) |-> {j} \cup Paths(j+1, depth-1)[x]],
                <<>>, [j \in 1 .. K - from + 1 |-> j + from - 1])
Walks == Paths(1, O)
Init == /\ gen \in Mats /\ soft \in [1 .. N -> -MAXMAG .. MAXMAG]
        /\ perm = ByReliability(soft) /\ G = [j \in 1 .. K |-> [p \in 1 .. N |-> gen[j][perm[p]]]]
        /\ col = 1 /\ phase = "echelon" /\ cw = ZeroW(N) /\ todo = 1 /\ best = Low /\ next = Low /\ cand = ZeroW(N)
SwapCols(g, a, b) == [j \in 1 .. K |-> [g[j] EXCEPT ![a] = g[j][b], ![b] = g[j][a]]]
SwapRows(g, a, b) == [g EXCEPT ![a] = g[b], ![b] = g[a]]
Below(g, k) == [j \in 1 .. K |-> IF j > k /\ g[j][k] = 1 THEN XorW(g[j], g[k]) ELSE g[j]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Echelon ==
  /\ phase = "echelon" /\ col <= K
  /\ LET own == {j \in col .. K : G[j][col] = 1}
         others == {p \in col + 1 .. N : \E j \in col .. K : G[j][p] = 1}
         p == IF own # {} THEN col ELSE Least(others)
         g1 == SwapCols(G, col, p)
         j == Least({x \in col .. K : g1[x][col] = 1})
     IN /\ G' = Below(SwapRows(g1, col, j), col)
        /\ perm' = [perm EXCEPT ![col] = perm[p], ![p] = perm[col]]
  /\ col' = col + 1 /\ UNCHANGED <<gen, soft, phase, cw, todo, best, next, cand>>
Back == /\ phase = "echelon" /\ col = K + 1
        /\ G' = FoldLeft(LAMBDA g, k : [j \in 1 .. K |-> IF j < K + 1 - k /\ g[j][K + 1 - k] = 1 THEN XorW(g[j], g[K + 1 - k]) ELSE g[j]],
                         G, [k \in 1 .. K - 1 |-> k])
        /\ phase' = "encode" /\ UNCHANGED <<gen, soft, perm, col, cw, todo, best, next, cand>>
Metric(c) == FoldLeft(LAMBDA acc, p : acc + (1 - 2 * c[p]) * soft[perm[p]], 0, [p \in 1 .. N |-> p])
Encode == /\ phase = "encode"
          /\ cw' = FoldLeft(LAMBDA acc, j : IF soft[perm[j]] < 0 THEN XorW(acc, G[j]) ELSE acc, ZeroW(N), [j \in 1 .. K |-> j])
          /\ best' = Metric(cw') /\ cand' = cw' /\ phase' = "walk"
          /\ UNCHANGED <<gen, soft, G, perm, col, todo, next>>
Flip == /\ phase = "walk" /\ todo <= Len(Walks)
        /\ \E c \in {FoldSet(LAMBDA j, acc : XorW(acc, G[j]), cw, Walks[todo])} :
             \E met \in {Metric(c)} :
               /\ next' = IF met > best THEN best ELSE IF met > next THEN met ELSE next
               /\ best' = IF met > best THEN met ELSE best
               /\ cand' = IF met > best THEN c ELSE cand
        /\ todo' = todo + 1 /\ UNCHANGED <<gen, soft, G, perm, col, phase, cw>>
Next == Echelon \/ Back \/ Encode \/ Flip
Spec == Init /\ [][Next]_vars
(* the chosen positions are a basis of the largest total reliability *)
Chosen == {perm[j] : j \in 1 .. K}
Independent(B) == {c \in [1 .. K -> {0, 1}] : \A p \in B : Times(c, gen)[p] = 0} = {ZeroW(K)}
MostReliable == phase = "encode" =>
  /\ Independent(Chosen)
  /\ \A B \in kSubset(K, 1 .. N) : Independent(B) => WeightOf(B, soft) <= WeightOf(Chosen, soft)
  /\ \A j \in 1 .. K : \A p \in 1 .. K : G[j][p] = IF j = p THEN 1 ELSE 0
(* the rows remain codewords, in permuted order *)
Code == {Times(m, gen) : m \in [1 .. K -> {0, 1}]}
Unpermuted(w) == [q \in 1 .. N |-> w[CHOOSE p \in 1 .. N : perm[p] = q]]
Spans == phase # "echelon" => \A j \in 1 .. K : Unpermuted(G[j]) \in Code
(* all codewords that disagree with the hard decisions at most O times in    *)
(* the chosen positions compete                                              *)
Competing == {c \in Code : Cardinality({p \in Chosen : c[p] # HardBit(soft[p])}) <= O}
Best == (phase = "walk" /\ todo = Len(Walks) + 1) =>
  LET mets == {Corr(c, soft) : c \in Competing}
      mx == CHOOSE x \in mets : \A y \in mets : y <= x
      winners == {c \in Competing : Corr(c, soft) = mx}
  IN Unpermuted(cand) \in winners /\ ((best # next) = (Cardinality(winners) = 1)) /\ best = mx
     /\ DecodeOK(Reduce(gen, BasisOrder(Chosen, N)), soft, O, Unpermuted(cand), best # next)
=============================================================================
