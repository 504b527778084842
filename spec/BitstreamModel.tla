--------------------------- MODULE BitstreamModel ---------------------------
(* Design model of bitstream.hh: a byte array (bytes of W bits) where an     *)
(* unaligned byte access is split over two bytes by masks and shifts, next   *)
(* to the abstract bit memory.                                               *)
EXTENDS Integers, Sequences, Bitwise, TLC
CONSTANTS W, BYTES, DEPTH
VARIABLES buf, mem, pos, steps, ok
vars == <<buf, mem, pos, steps, ok>>
Bits == W * BYTES
Full == 2^W
Init == buf = [i \in 0 .. BYTES-1 |-> 0] /\ mem = [i \in 0 .. Bits-1 |-> 0] /\ pos = 0 /\ steps = 0 /\ ok = TRUE
bit == pos % W
byte == pos \div W
MemPut(v, n) == mem' = [i \in 0 .. Bits-1 |-> IF i >= pos /\ i < pos + n THEN shiftR(v, i - pos) % 2 ELSE mem[i]]
RECURSIVE MemGet(_, _)
MemGet(p, n) == IF n = 0 THEN 0 ELSE mem[p] + 2*MemGet(p+1, n-1)
Inv(m) == (Full - 1) - m
PutByte(v) ==
  /\ pos + W <= Bits
  /\ LET mask == 2^bit - 1 IN
     buf' = IF bit = 0 THEN [buf EXCEPT ![byte] = v]
            ELSE [buf EXCEPT ![byte] = (mask & @) | ((v * 2^bit) % Full),
                             ![byte+1] = (Inv(mask) & @) | shiftR(v, W - bit)]
  /\ MemPut(v, W) /\ pos' = pos + W /\ UNCHANGED ok
GetByte ==
  /\ pos + W <= Bits
  /\ LET v == IF bit = 0 THEN buf[byte] ELSE shiftR(buf[byte], bit) | ((buf[byte+1] * 2^(W-bit)) % Full) IN
     ok' = (v = MemGet(pos, W))
  /\ pos' = pos + W /\ UNCHANGED <<buf, mem>>
PutBit(b) ==
  /\ pos < Bits
  /\ buf' = [buf EXCEPT ![byte] = (Inv(2^bit) & @) | (b * 2^bit)]
  /\ MemPut(b, 1) /\ pos' = pos + 1 /\ UNCHANGED ok
(* bits written in pieces that end at byte boundaries *)
RECURSIVE Pieces(_, _, _, _)
Pieces(b, p, v, n) ==
  IF n = 0 THEN b ELSE
  LET k == p % W
      copy == IF W - k < n THEN W - k ELSE n
      mask == 2^copy - 1 IN
  Pieces([b EXCEPT ![p \div W] = (Inv(mask * 2^k) & @) | ((mask & v) * 2^k)], p + copy, shiftR(v, copy), n - copy)
WriteBits(v, n) ==
  /\ pos + n <= Bits
  /\ buf' = Pieces(buf, pos, v, n) /\ MemPut(v, n) /\ pos' = pos + n /\ UNCHANGED ok
Seek(p) == pos' = p /\ UNCHANGED <<buf, mem, ok>>
Next == /\ steps < DEPTH /\ steps' = steps + 1
        /\ \/ \E v \in 0 .. Full-1 : PutByte(v)
           \/ GetByte
           \/ \E b \in {0, 1} : PutBit(b)
           \/ \E n \in 0 .. 2*W-1, v \in {0, 1, 2^(2*W-1) - 1, (2^(2*W) - 1) \div 3} : WriteBits(v, n)
           \/ \E p \in 0 .. Bits : Seek(p)
Spec == Init /\ [][Next]_vars
Same == \A i \in 0 .. Bits-1 : shiftR(buf[i \div W], i % W) % 2 = mem[i]
Reads == ok
=============================================================================
