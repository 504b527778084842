------------------------------- MODULE RSModel -------------------------------
(* Design model of reed_solomon_error_correction.hh: a word is sent, symbols *)
(* are damaged or erased one by one, then the decoder runs the way the code  *)
(* does - syndromes, erasure locator, one Berlekamp-Massey step per          *)
(* syndrome, root search, Forney - and the result is compared with what the  *)
(* bounded distance property demands.  The code is linear and the decoder    *)
(* looks at syndromes only, so the zero word is sent.                        *)
EXTENDS RS
CONSTANTS M, P, NR, FCR, LEN, MAXDAMAGE, BINARY
ASSUME LEN <= N(M) /\ NR < LEN
f == <<M, P>>
VARIABLES pc, rx, era, s, C, B, L, n, m, out, ret
vars == <<pc, rx, era, s, C, B, L, n, m, out, ret>>
Zero == [k \in 1 .. LEN |-> 0]
ZR == [k \in 0 .. NR |-> 0]
Init == /\ pc = "channel" /\ rx = Zero /\ era = {}
        /\ s = <<>> /\ C = ZR /\ B = ZR /\ L = 0 /\ n = 0 /\ m = 1 /\ out = Zero /\ ret = 0
Wrong == {k \in 1 .. LEN : rx[k] # 0}
(* positions are damaged in ascending order: every pattern arises once *)
Top == LET D == Wrong \cup era IN IF D = {} THEN 0 ELSE CHOOSE k \in D : \A j \in D : j <= k
Rest == UNCHANGED <<s, C, B, L, n, m, out, ret>>
Damage(k, v) == /\ pc = "channel" /\ k > Top /\ Cardinality(Wrong \cup era) < MAXDAMAGE
                /\ rx' = [rx EXCEPT ![k] = v] /\ UNCHANGED <<pc, era>> /\ Rest
Erase(k, v) == /\ pc = "channel" /\ k > Top /\ Cardinality(Wrong \cup era) < MAXDAMAGE
               /\ Cardinality(era) < NR
               /\ rx' = [rx EXCEPT ![k] = v] /\ era' = era \cup {k} /\ UNCHANGED pc /\ Rest
(* location index used by the code: 0 is the first symbol of a full word *)
Loc(k) == N(M) - LEN + k - 1
(* coefficients 0 .. NR of the polynomial with factors (1 - x pe^(N-1-loc)) *)
RECURSIVE EraLoc(_, _)
EraLoc(S, c) == IF S = {} THEN c ELSE
  LET k == CHOOSE k \in S : TRUE
      g == TExp(f, N(M) - 1 - Loc(k)) IN
  EraLoc(S \ {k}, [i \in 0 .. NR |-> c[i] ^^ (IF i = 0 THEN 0 ELSE TMul(f, g, c[i-1]))])
Receive ==
  /\ pc = "channel"
  /\ s' = Syndromes(f, NR, FCR, rx)
  /\ IF \A i \in 1 .. NR : s'[i] = 0
     THEN /\ pc' = "done" /\ ret' = 0 /\ out' = rx /\ UNCHANGED <<C, B, L, n, m>>
     ELSE /\ pc' = "bm"
          /\ C' = EraLoc(era, [ZR EXCEPT ![0] = 1]) /\ B' = C'
          /\ L' = Cardinality(era) /\ n' = L' /\ m' = 1
          /\ UNCHANGED <<out, ret>>
  /\ UNCHANGED <<rx, era>>
RECURSIVE Dot(_, _)
Dot(i, acc) == IF i > L THEN acc ELSE Dot(i+1, acc ^^ TMul(f, C[i], s[n-i+1]))
Discrepancy == Dot(1, s[n+1])
Step ==
  /\ pc = "bm" /\ n < NR
  /\ LET d == Discrepancy
         T == [i \in 0 .. NR |-> IF i < m THEN C[i] ELSE C[i] ^^ TMul(f, d, B[i-m])]
         cnt == Cardinality(era) IN
     IF d = 0 THEN m' = m + 1 /\ UNCHANGED <<C, B, L>>
     ELSE IF 2*L <= n + cnt
     THEN /\ L' = n + cnt + 1 - L /\ m' = 1 /\ C' = T
          /\ B' = [i \in 0 .. NR |-> TMul(f, C[i], TInv(f, d))]
     ELSE m' = m + 1 /\ C' = T /\ UNCHANGED <<B, L>>
  /\ n' = n + 1 /\ UNCHANGED <<pc, rx, era, s, out, ret>>
Value(c, x) == LET RECURSIVE V(_, _)
                   V(i, acc) == IF i < 0 THEN acc ELSE V(i-1, TMul(f, acc, x) ^^ c[i])
               IN V(NR, 0)
Fail == pc' = "done" /\ ret' = -1 /\ out' = rx
Finish ==
  /\ pc = "bm" /\ n >= NR
  /\ UNCHANGED <<rx, era, s, C, B, L, n, m>>
  /\ IF L > NR \/ C[L] = 0 THEN Fail ELSE
     LET roots == {loc \in 0 .. N(M)-1 : Value(C, TExp(f, loc+1)) = 0}
         ev == [i \in 0 .. NR-1 |-> IF i > L THEN 0 ELSE
                  FoldLeft(LAMBDA acc, j : acc ^^ TMul(f, s[i-j+1], C[j]), 0, [j \in 1 .. i+1 |-> j-1])]
         evalAt(x) == FoldLeft(LAMBDA acc, i : TMul(f, acc, x) ^^ ev[NR-i], 0, [i \in 1 .. NR |-> i])
         derivAt(x) == FoldLeft(LAMBDA acc, j : IF j % 2 = 1 THEN acc ^^ TMul(f, C[j], Pow(M, P, x, j-1)) ELSE acc,
                                0, [j \in 1 .. L |-> j])
         mag(loc) == LET x == TExp(f, loc+1) IN
                     TMul(f, TMul(f, evalAt(x), TInv(f, derivAt(x))),
                          IF FCR = 0 THEN TInv(f, x) ELSE Pow(M, P, x, FCR-1)) IN
     IF Cardinality(roots) < L THEN Fail
     ELSE IF \E loc \in roots : loc < N(M) - LEN THEN Fail
     ELSE IF BINARY /\ \E loc \in roots : mag(loc) > 1 THEN Fail
     ELSE /\ pc' = "done"
          /\ out' = [k \in 1 .. LEN |-> IF Loc(k) \in roots THEN rx[k] ^^ mag(Loc(k)) ELSE rx[k]]
          /\ ret' = Cardinality({loc \in roots : mag(loc) # 0})
Values == IF BINARY THEN {1} ELSE 1 .. N(M)
Next == \/ \E k \in 1 .. LEN : \/ \E v \in Values : Damage(k, v)
                               \/ \E v \in {0} \cup Values : Erase(k, v)
        \/ Receive \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Done == pc = "done"
Corrects == Done /\ InCapacity(NR, Cardinality(Wrong \ era), Cardinality(era)) => out = Zero /\ ret = Cardinality(Wrong)
NeverWrong == Done => /\ SoundSuccess(f, NR, FCR, LEN, rx, ret, out)
                      /\ Unchanged(rx, ret, out)
(* the evaluation used for long words is the evaluation *)
FarSame == \A i \in 0 .. NR-1 : HornerFar(f, rx, TExp(f, FCR+i)) = HornerDef(f, rx, TExp(f, FCR+i))
RegisterLength == pc = "bm" => L <= NR
=============================================================================
