--------------------------- MODULE BitstreamTrace ---------------------------
EXTENDS TraceLib, Bitstream
VARIABLES mem, pos
tvars == <<l, mem, pos>>
TraceInit == l = 1 /\ mem = <<>> /\ pos = 0
(* a fresh stream of n bits (whole bytes are visible) with the bytes found in it *)
Begin == IsEvent("Begin") /\ mem' = BytesBits(Ev.data) /\ pos' = 0 /\ Ev.tell = 0
(* after every call the whole contents and the cursor are recorded *)
Seen == BytesBits(Ev.data) = mem' /\ Ev.tell = pos'
Seek == IsEvent("Seek") /\ pos' = Ev.pos /\ UNCHANGED mem /\ Seen
Reset == IsEvent("Reset") /\ pos' = 0 /\ mem' = [i \in 1 .. Len(mem) |-> 0] /\ Seen
Put(bits) == pos + Len(bits) <= Len(mem) /\ mem' = Store(mem, pos, bits) /\ pos' = pos + Len(bits) /\ Seen
Get(bits) == pos + Len(bits) <= Len(mem) /\ bits = Load(mem, pos, Len(bits)) /\ UNCHANGED mem /\ pos' = pos + Len(bits) /\ Seen
PutBit == IsEvent("PutBit") /\ Put(<<Ev.b>>)
GetBit == IsEvent("GetBit") /\ Get(<<Ev.b>>)
PutByte == IsEvent("PutByte") /\ Put(ByteBits(Ev.b))
GetByte == IsEvent("GetByte") /\ Get(ByteBits(Ev.b))
WriteBytes == IsEvent("WriteBytes") /\ Put(BytesBits(Ev.b)) /\ Ev.intact
ReadBytes == IsEvent("ReadBytes") /\ Get(BytesBits(Ev.b)) /\ Ev.intact
(* the low n bits of a word, given and recorded as bytes of the whole word *)
WriteBits == IsEvent("WriteBits") /\ Put(SubSeq(BytesBits(Ev.b), 1, Ev.n))
ReadBits == IsEvent("ReadBits") /\ Get(SubSeq(BytesBits(Ev.b), 1, Ev.n))
  /\ (\A i \in Ev.n + 1 .. 8*Len(Ev.b) : BytesBits(Ev.b)[i] = 0)
TraceNext == \/ Begin \/ Seek \/ Reset \/ PutBit \/ GetBit \/ PutByte \/ GetByte
             \/ WriteBytes \/ ReadBytes \/ WriteBits \/ ReadBits
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
