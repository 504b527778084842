---------------------------- MODULE PolarEncModel ----------------------------
(* The encoders as machines: one butterfly stage per step, for every frozen  *)
(* set and every message of the code.                                        *)
EXTENDS Polar
CONSTANTS MAXL, MAXFIRST
Sizes == {2^v : v \in 1 .. MAXL}
Signs(n) == [1 .. n -> {1, -1}]
VARIABLES frz, msg, kind, pass, span, word, stride, first
vars == <<frz, msg, kind, pass, span, word, stride, first>>
Init ==
  \E n \in Sizes : \E f \in [1 .. n -> {0, 1}] : \E kk \in {"plain", "sys", "par"} :
    /\ frz = f /\ kind = kk /\ pass = 1 /\ span = 1
    /\ (IF kk = "par" THEN stride \in 0 .. MAXFIRST /\ first \in 0 .. MAXFIRST ELSE stride = 0 /\ first = 0)
    /\ \E mm \in Signs(IF kk = "par" THEN ParityMessage(f, stride, first) ELSE Free(f)) :
         /\ msg = [x \in 1 .. Len(mm) |-> mm[x]]
         /\ word = IF kk = "par" THEN PlaceParity(msg, f, stride, first) ELSE Place(msg, f)
Stage == /\ span < Len(word)
         /\ word' = [x \in 1 .. Len(word) |-> IF ((x - 1) \div span) % 2 = 0 THEN word[x] * word[x + span] ELSE word[x]]
         /\ span' = 2 * span
         /\ UNCHANGED <<frz, msg, kind, pass, stride, first>>
(* second round of the systematic encoder: frozen positions back to constants *)
Again == /\ span = Len(word) /\ kind = "sys" /\ pass = 1
         /\ word' = [x \in 1 .. Len(word) |-> IF frz[x] = 1 THEN 1 ELSE word[x]]
         /\ pass' = 2 /\ span' = 1
         /\ UNCHANGED <<frz, msg, kind, stride, first>>
Next == Stage \/ Again
Spec == Init /\ [][Next]_vars
(* ---- *)
Done == span = Len(word) /\ (kind = "sys" => pass = 2)
Above(x, y) == ((x - 1) & (y - 1)) = y - 1
(* no frozen position between two free ones *)
Convex(f) == \A x, y, z \in 1 .. Len(f) : f[x] = 0 /\ f[z] = 0 /\ Above(y, x) /\ Above(z, y) => f[y] = 0
(* what it takes exactly: an even number of frozen positions between any two *)
Between(f, x, z) == {y \in 1 .. Len(f) : f[y] = 1 /\ Above(y, x) /\ Above(z, y)}
Even(f) == \A x, z \in 1 .. Len(f) : f[x] = 0 /\ f[z] = 0 /\ Above(z, x) => (Cardinality(Between(f, x, z)) % 2) = 0
Sufficient == Convex(frz) => Even(frz)
PlainRight == Done /\ kind = "plain" => PlainOK(msg, frz, word) /\ Transform(word) = Place(msg, frz)
Systematic == Done /\ kind = "sys" /\ Even(frz) => SystematicOK(msg, frz, word)
(* the condition is needed: without it some message is not found in its codeword *)
OneTwo(f) == \E mm \in Signs(Free(f)) : \E a \in {Transform(Place([x \in 1 .. Free(f) |-> mm[x]], f))} :
   Extract(Transform([x \in 1 .. Len(f) |-> IF f[x] = 1 THEN 1 ELSE a[x]]), f) # [x \in 1 .. Free(f) |-> mm[x]]
Needed == kind = "sys" /\ span = 1 /\ pass = 1 /\ Free(frz) > 0 /\ (\A x \in 1 .. Len(msg) : msg[x] = 1) => (Even(frz) \/ OneTwo(frz))
ParityRight == Done /\ kind = "par" => ParityOK(msg, frz, stride, first, word)
(* every parity position closes a run of message bits *)
Runs == kind = "par" /\ span = 1 =>
   FoldLeft(LAMBDA st, x : IF frz[x] = 1 THEN st
                           ELSE IF st[2] > 0 THEN <<st[1], st[2] - 1, st[3] * word[x]>>
                           ELSE <<st[1] /\ st[3] = word[x], stride, 1>>, <<TRUE, first, 1>>, [x \in 1 .. Len(frz) |-> x])[1]
(* the shortcut for codes with nothing but a prefix frozen *)
IsPrefix1 == \A x \in 2 .. Len(frz) : frz[x] <= frz[x - 1]
Prefix == kind = "par" /\ span = 1 /\ stride > 0 /\ IsPrefix1 =>
   LET n == Len(frz)  z == n - Free(frz) IN
   /\ Len(msg) = PrefixMessage(n, z, stride, first)
   /\ {x - 1 : x \in {v \in 1 .. n : word[v] = -1}} = PrefixParity(n, z, stride, first, {k - 1 : k \in {v \in 1 .. Len(msg) : msg[v] = -1}})
Recursion == span = 1 => Butterfly(word) = Kronecker(word)
=============================================================================
