---------------------------- MODULE SyndromeModel ----------------------------
(* Design model of reading a word symbol by symbol into NR registers that    *)
(* are multiplied by their root before each (the decoders' syndromes), and   *)
(* into the division by the generator polynomial (the encoders' registers).  *)
(* Every word of up to LEN symbols.                                          *)
EXTENDS RS
CONSTANTS M, P, NR, FCR, LEN
f == <<M, P>>
VARIABLES w, s, r
vars == <<w, s, r>>
(* product of the (x - root), highest degree first, without the leading one *)
RECURSIVE GenR(_, _)
GenR(i, g) == IF i = NR THEN g ELSE
  LET root == TExp(f, FCR + i)
      up == Append(g, 0)
      lo == <<0>> \o [k \in 1 .. Len(g) |-> TMul(f, root, g[k])] IN
  GenR(i+1, [k \in 1 .. Len(up) |-> up[k] ^^ lo[k]])
Gen == Tail(GenR(0, <<1>>))
Init == w = <<>> /\ s = [i \in 1 .. NR |-> 0] /\ r = [i \in 1 .. NR |-> 0]
Read(c) ==
  /\ Len(w) < LEN
  /\ w' = Append(w, c)
  /\ s' = [i \in 1 .. NR |-> TMul(f, TExp(f, FCR + i - 1), s[i]) ^^ c]
  /\ r' = LET top == r[1] IN
          [i \in 1 .. NR |-> (IF i = NR THEN c ELSE r[i+1]) ^^ TMul(f, top, Gen[i])]
Next == \E c \in 0 .. N(M) : Read(c)
Spec == Init /\ [][Next]_vars
(* the registers hold the values of the polynomial read so far *)
Values == \A i \in 1 .. NR : s[i] = FoldLeft(LAMBDA acc, k : acc ^^ TMul(f, w[k], TExp(f, (FCR + i - 1) * (Len(w) - k))),
                                             0, [k \in 1 .. Len(w) |-> k])
Agree == s = Syndromes(f, NR, FCR, w)
(* vanishing at all roots is being divisible by the generator polynomial *)
Divisible == (\A i \in 1 .. NR : s[i] = 0) <=> (\A i \in 1 .. NR : r[i] = 0)
(* fewer than NR + 1 symbols that are not all zero are never a codeword *)
Apart == (\A i \in 1 .. NR : s[i] = 0) /\ Len(w) <= N(M) =>
            LET nz == Cardinality({k \in 1 .. Len(w) : w[k] # 0}) IN nz = 0 \/ nz > NR
=============================================================================
