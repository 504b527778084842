------------------------------ MODULE SimdGen -------------------------------
(* Writes the value of every operation on 8 bit lanes for all operands and   *)
(* of every operation with one operand on 16 bit lanes, in the order of Uses *)
(* (the replaying harness knows that order).                                 *)
EXTENDS Simd, Json, IOUtils
VARIABLE done
Uses == << <<"s8", "neg", 1>>, <<"s8", "abs", 1>>, <<"s8", "qabs", 1>>, <<"s8", "signum", 1>>, <<"s8", "cgtz", 1>>, <<"s8", "ceqz", 1>>,
           <<"s8", "cltz", 1>>, <<"s8", "clez", 1>>, <<"u8", "not", 1>>,
           <<"s16", "neg", 1>>, <<"s16", "abs", 1>>, <<"s16", "qabs", 1>>, <<"s16", "signum", 1>>, <<"s16", "cgtz", 1>>, <<"s16", "ceqz", 1>>,
           <<"s16", "cltz", 1>>, <<"s16", "clez", 1>>, <<"u16", "not", 1>>,
           <<"s8", "cgt", 2>>, <<"s8", "ceq", 2>>, <<"s8", "min", 2>>, <<"s8", "max", 2>>, <<"s8", "add", 2>>, <<"s8", "sub", 2>>, <<"s8", "mul", 2>>,
           <<"s8", "sign", 2>>, <<"s8", "qadd", 2>>, <<"s8", "qsub", 2>>,
           <<"u8", "orr", 2>>, <<"u8", "and", 2>>, <<"u8", "eor", 2>>, <<"u8", "bic", 2>>, <<"u8", "cgt", 2>>, <<"u8", "qsub", 2>> >>
Column(u) == IF u[3] = 1 THEN [a \in 1 .. 2^Wide(u[1]) |-> Unary(u[2], u[1], <<a - 1>>)[1]]
             ELSE [p \in 1 .. 65536 |-> Binary(u[2], u[1], <<(p - 1) \div 256>>, <<(p - 1) % 256>>)[1]]
Out == JsonSerialize(IOEnv.OUT, TLCEval(FoldLeft(LAMBDA s, u : s \o TLCEval(Column(u)), <<>>, Uses)))
Init == done = FALSE
Next == ~done /\ Out /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
