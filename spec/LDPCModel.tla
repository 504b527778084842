------------------------------ MODULE LDPCModel ------------------------------
(* Design model: every soft word of small amplitude decoded pass by pass.    *)
EXTENDS LDPCFar
CONSTANTS WHICH, AMPS, BETA, TRIALS
VALS == <<{1}, {-1, 2}, {-2, 1}, {-1, 0, 2}, {-3, -1, 2}>>[AMPS]
(* 1: row 0 has two links of group 0 that conflict, then one of group 1      *)
(* 2: two layers per row, a conflict in row 1                                *)
(* 3: no conflicts                                                           *)
Tabs == << [M |-> 2, q |-> 2, G |-> 2, D |-> 2, adr |-> <<<<0, 0>>, <<0, 2>>, <<1, 0>>, <<1, 3>>>>],
           [M |-> 4, q |-> 2, G |-> 1, D |-> 2, adr |-> <<<<0, 1>>, <<0, 5>>, <<0, 2>>>>],
           [M |-> 3, q |-> 2, G |-> 1, D |-> 1, adr |-> <<<<0, 1>>, <<0, 5>>, <<0, 2>>>>] >>
Tab == Tabs[WHICH]
TM == Tab.M
TQ == Tab.q
Pr == TLCEval(Prepared(Tab))
Starts == TLCEval(MaskChoices(Pr))
VARIABLES chan, sw, bls, act, layer, left
vars == <<chan, sw, bls, act, layer, left>>
Init == /\ chan \in [1 .. NN(Tab) -> VALS] /\ sw = chan /\ bls = Fresh(Pr)
        /\ act \in Starts /\ layer = 0 /\ left = TRIALS
Start == layer = 0 /\ ~Valid(sw, Pr.LT) /\ left > 0 /\ layer' = 1 /\ left' = left - 1 /\ UNCHANGED <<chan, sw, bls, act>>
Layer == /\ layer > 0
         /\ \E st \in {LayerStep(Pr, layer, sw, bls, act, BETA)} : sw' = st[1] /\ bls' = st[2]
         /\ IF layer = Len(Pr.layers) THEN layer' = 0 /\ act' = Turned(Pr, act) ELSE layer' = layer + 1 /\ UNCHANGED act
         /\ UNCHANGED <<chan, left>>
Next == Start \/ Layer
Spec == Init /\ [][Next]_vars
(* without saturation every bit is its channel value plus all messages to it *)
Sum(b) == FoldLeft(LAMBDA acc, p1 : acc + FoldLeft(LAMBDA a2, k : a2 + (IF Pr.LT[p1][k] = b THEN bls[p1][k] ELSE 0), 0, [k \in 1 .. Len(bls[p1]) |-> k]),
                   0, [p1 \in 1 .. Len(bls) |-> p1])
Consistent == \A b \in 0 .. NN(Tab) - 1 : sw[b + 1] = chan[b + 1] + Sum(b)
(* of links competing for the same words exactly one is active *)
OneWriter == \A x \in 1 .. Len(act) : \A S \in Pr.runs[x] : Cardinality(S \ act[x]) = 1
(* all bits and every address of the tables agree with the definition of the code *)
Links == \A p \in 0 .. RR(Tab) - 1 : \A b \in 0 .. KK(Tab) - 1 :
   (\E k \in 1 .. Len(Pr.LT[p + 1]) - 2 : Pr.LT[p + 1][k] = b) <=>
   (\E e \in 1 .. Len(Tab.adr) : Tab.adr[e][1] = b \div TM /\ ((Tab.adr[e][2] + (b % TM) * TQ) % RR(Tab)) = p)
(* codewords are fixed points *)
Settled == (layer = 0 /\ sw = chan /\ Valid(chan, Pr.LT)) => Decode(Pr, chan, act, TRIALS, BETA)[1] = chan
(* the formulation in words gives the same, if no words are shared *)
FarPr == TLCEval(FarPrepared(Tab))
SameFar == (layer = 0 /\ sw = chan /\ \A x \in 1 .. Len(Pr.layers) : Pr.runs[x] = {}) =>
   \E r \in {Decode(Pr, chan, act, TRIALS, BETA)} : FarDecode(FarPr, chan, TRIALS, BETA) = <<r[1], r[2]>>
=============================================================================
