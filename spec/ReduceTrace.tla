----------------------------- MODULE ReduceTrace -----------------------------
(* Exclusive reduction: out[i] combines every input but the i-th.            *)
EXTENDS TraceLib, SequencesExt, Bitwise
VARIABLE n
tvars == <<l, n>>
TraceInit == l = 1 /\ n = 0
Begin == IsEvent("Begin") /\ n' = Ev.n
Op(o, x, y) == CASE o = "add" -> x + y
                 [] o = "xor" -> x ^^ y
                 [] o = "or" -> x | y
                 [] o = "min" -> IF x < y THEN x ELSE y
                 [] o = "max" -> IF x > y THEN x ELSE y
                 [] o = "mulmod" -> (x * y) % 251
Without(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Fold(o, s) == FoldLeft(LAMBDA acc, x : Op(o, acc, x), s[1], Tail(s))
AllButOne(o, in, out) == \A i \in 1 .. n : out[i] = Fold(o, Without(in, i))
(* where every element is its own inverse: all of them combined without one *)
OutOfTotal(in, out) == LET t == TLCEval(Fold("xor", in)) IN \A i \in 1 .. n : out[i] = t ^^ in[i]
Reduce == IsEvent("Reduce") /\ Len(Ev.in) = n /\ Len(Ev.out) = n /\ Ev.intact
  /\ (IF Ev.op = "xor" /\ n > 600 THEN OutOfTotal(Ev.in, Ev.out) ELSE AllButOne(Ev.op, Ev.in, Ev.out)) = TRUE
  /\ UNCHANGED n
TraceNext == Begin \/ Reduce
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
