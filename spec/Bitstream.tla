----------------------------- MODULE Bitstream -----------------------------
(* A bit addressed memory with a cursor.  mem is a sequence of bits, pos the *)
(* zero-based cursor.                                                        *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
ByteBits(b) == [i \in 1 .. 8 |-> shiftR(b, i-1) % 2]
BytesBits(bs) == [i \in 1 .. 8*Len(bs) |-> shiftR(bs[((i-1) \div 8) + 1], (i-1) % 8) % 2]
Store(mem, pos, bits) == [i \in 1 .. Len(mem) |-> IF i > pos /\ i <= pos + Len(bits) THEN bits[i-pos] ELSE mem[i]]
Load(mem, pos, n) == [i \in 1 .. n |-> mem[pos + i]]
=============================================================================
