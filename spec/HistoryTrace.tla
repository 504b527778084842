---------------------------- MODULE HistoryTrace -----------------------------
(* Objects that carry nothing over: within a session (one codec with fixed   *)
(* parameters, a few fixed inputs) the answer to a call is a function of its *)
(* input alone, whatever the object was asked before, and whichever object   *)
(* of the codec is asked.  A word is a history of a freshly made object (or  *)
(* of several, taking turns).  At the end every history of three calls must  *)
(* have been seen: by HistoryModel these expose every dependence of an       *)
(* object with up to three distinguishable inner states.                     *)
EXTENDS TraceLib, FiniteSets
VARIABLES n, memo, words
tvars == <<l, n, memo, words>>
TraceInit == l = 1 /\ n = 0 /\ memo = <<>> /\ words = {}
None == <<>>
Answer(k) == <<Ev.ret[k], Ev.out[k]>>
Begin == IsEvent("Begin") /\ n' = Ev.n /\ memo' = [i \in 1 .. Ev.n |-> None] /\ words' = {}
(* first answer to each input in this word *)
Learned == [i \in 1 .. n |->
   IF memo[i] # None THEN memo[i]
   ELSE IF \E k \in 1 .. Len(Ev.in) : Ev.in[k] = i - 1 THEN Answer(CHOOSE k \in 1 .. Len(Ev.in) : Ev.in[k] = i - 1) ELSE None]
Word == IsEvent("Word") /\ Ev.same /\ Len(Ev.ret) = Len(Ev.in) /\ Len(Ev.out) = Len(Ev.in)
   /\ (\A k \in 1 .. Len(Ev.in) : Ev.in[k] \in 0 .. n - 1)
   /\ (\E m \in {Learned} : (\A k \in 1 .. Len(Ev.in) : Answer(k) = m[Ev.in[k] + 1]) /\ memo' = m)
   /\ words' = (IF Len(Ev.in) = 3 THEN words \union {Ev.in} ELSE words)
   /\ n' = n
End == IsEvent("End") /\ Cardinality(words) = n * n * n /\ (\A i \in 1 .. n : memo[i] # None)
   /\ UNCHANGED <<n, memo, words>>
TraceNext == Begin \/ Word \/ End
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
