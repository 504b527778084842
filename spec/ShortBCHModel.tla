--------------------------- MODULE ShortBCHModel ---------------------------
(* Design model: filling the table of correctable patterns in the order of   *)
(* the nested loops, then decoding every word: the nearest codeword within T *)
(* or failure, and the syndrome tables of ShortBCH.tla agree with the search *)
(* over all codewords.                                                       *)
EXTENDS ShortBCH
CONSTANTS MN, MK, MG, MT
VARIABLES pc, todo, err, word
vars == <<pc, todo, err, word>>
Code == <<MN, MK, MG, MT>>
TB == TLCEval(Tables(Code))
Words == 0 .. 2^MN - 1
RemT == TLCEval([ww \in Words |-> Rem(TB, ww)])
Weight(ww) == Cardinality({xx \in 0 .. MN-1 : BitAt(ww, xx) = 1})
Pats == TLCEval({ww \in Words : Weight(ww) >= 1 /\ Weight(ww) <= MT})
CW == TLCEval({ww \in Words : RemT[ww] = 0})
Init == pc = "fill" /\ todo = Pats /\ err = [ss \in 0 .. 2^(MN-MK)-1 |-> 0] /\ word = 0
(* patterns in descending numeric order of the nested loops *)
Fill == /\ pc = "fill" /\ todo # {}
        /\ LET pat == Max(todo) IN err' = [err EXCEPT ![RemT[pat]] = pat] /\ todo' = todo \ {pat}
        /\ UNCHANGED <<pc, word>>
Decode == /\ (pc = "fill" /\ todo = {}) \/ pc = "decode"
          /\ pc' = "decode" /\ word' \in Words /\ UNCHANGED <<todo, err>>
Next == Fill \/ Decode
Spec == Init /\ [][Next]_vars
Result == IF err[RemT[word]] # 0 \/ RemT[word] = 0 THEN word ^^ err[RemT[word]] ELSE -1
Nearest == pc = "decode" =>
  LET near == {cw \in CW : Weight(cw ^^ word) <= MT} IN
  /\ Cardinality(near) <= 1
  /\ Result = (IF near = {} THEN -1 ELSE CHOOSE cw \in near : TRUE)
  /\ Result = Hard(TB, word)
Systematic == \A msg \in 0 .. 2^MK - 1 : Encode(TB, msg) \in CW /\ Encode(TB, msg) \div 2^(MN-MK) = msg
=============================================================================
