-------------------------------- MODULE RSGen --------------------------------
(* Generates, for the codes replayed exhaustively, the syndrome of every     *)
(* single symbol error (packed, M bits per root): the syndrome of a word is  *)
(* the exclusive or over its symbols.                                        *)
EXTENDS RS, Json, IOUtils
(* M, P, NR, FCR *)
Codes == << <<2, 7, 1, 0>>, <<2, 7, 2, 1>>, <<3, 11, 2, 0>>, <<3, 11, 2, 1>>, <<3, 13, 3, 1>>, <<3, 11, 4, 2>>, <<3, 11, 5, 0>>, <<3, 11, 6, 1>>,
            <<4, 19, 2, 1>>, <<4, 19, 3, 0>>, <<4, 25, 4, 1>>, <<4, 19, 5, 3>>, <<4, 19, 6, 0>>, <<4, 19, 4, 1>>, <<4, 19, 2, 3>>, <<4, 19, 3, 2>>,
            <<4, 19, 5, 0>>, <<4, 19, 6, 1>>, <<5, 37, 4, 1>>, <<5, 37, 3, 0>>, <<5, 61, 5, 2>>, <<5, 37, 6, 1>>, <<5, 37, 5, 0>>, <<5, 37, 4, 3>>, <<5, 61, 4, 1>> >>
Pack(M, s) == FoldLeft(LAMBDA acc, x : acc * 2^M + x, 0, s)
Row(c) ==
  LET f == <<c[1], c[2]>>  nn == N(c[1]) IN
  <<c[1], c[2], c[3], c[4]>> \o
  [k \in 1 .. nn*nn |->
     LET pos == ((k-1) \div nn) + 1
         v == ((k-1) % nn) + 1 IN
     Pack(c[1], [i \in 1 .. c[3] |-> TMul(f, v, TExp(f, (c[4]+i-1) * (nn - pos)))])]
Out == JsonSerialize(IOEnv.OUT, <<Len(Codes)>> \o FoldLeft(LAMBDA acc, c : acc \o Row(c), <<>>, Codes))
VARIABLE done
Init == done = FALSE
Next == ~done /\ Out /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
