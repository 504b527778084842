------------------------------ MODULE CPFTrace ------------------------------
(* Conformance of cauchy_prime_field_erasure_coding.hh.                      *)
EXTENDS TraceLib, SequencesExt
VARIABLES prime, data
tvars == <<l, prime, data>>
(* 17 bit factors within 32 bit integers *)
Times(a, b) == (((a * (b \div 256)) % prime) * 256 + a * (b % 256)) % prime
RECURSIVE Egcd(_, _, _, _)
(* r0, r1 with r = s*a modulo P *)
Egcd(r0, r1, s0, s1) == IF r1 = 0 THEN s0 ELSE Egcd(r1, r0 % r1, s1, s0 - (r0 \div r1) * s1)
Rcp(a) == ((Egcd(prime, a, 0, 1) % prime) + prime) % prime
(* chunk x is sum_k data[k] / (x + k) *)
Chunk(x) ==
  LET cf == TLCEval([k \in 1 .. Len(data) |-> Rcp((x + k - 1) % prime)]) IN
  [i \in 1 .. Len(data[1]) |-> FoldLeft(LAMBDA acc, k : (acc + Times(cf[k], data[k][i])) % prime, 0, [k \in 1 .. Len(data) |-> k])]
TraceInit == l = 1 /\ prime = 257 /\ data = <<>>
Begin == IsEvent("Begin") /\ prime' = Ev.P /\ data' = Ev.data
Keep == UNCHANGED <<prime, data>>
K == Len(data)
Encode ==
  /\ IsEvent("Encode") /\ Ev.intact /\ Ev.id >= K /\ Ev.id < prime \div 2
  /\ \E v \in {Chunk(Ev.id)} :   \* binds the value once
     /\ Len(Ev.out) = Len(v)
     /\ Ev.sub \in 0 .. prime - 2
     /\ \A i \in 1 .. Len(v) : /\ v[i] # Ev.sub
                               /\ Ev.out[i] = (IF v[i] = prime - 1 THEN Ev.sub ELSE v[i])
  /\ Keep
Distinct(s) == \A x, y \in 1 .. Len(s) : x # y => s[x] # s[y]
Decode == /\ IsEvent("Decode") /\ Ev.intact
          /\ Len(Ev.ids) = K /\ Distinct(Ev.ids)
          /\ Len(Ev.out) = Len(Ev.idx)
          /\ (\A k \in 1 .. Len(Ev.idx) : Ev.out[k] = data[Ev.idx[k] + 1])
          /\ Keep
TraceNext == Begin \/ Encode \/ Decode
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
