------------------------------ MODULE PredSpec ------------------------------
(* Prediction: what one predictor step is worth, over histories of trackers, predictors, systems
   and precisions.

   The systems are triangular, f_j = x_j^2 + a_j x_j x_(j-1) + b_j t x_j - (1 + a_j) - c_j t - e_j t^2,
   so that x = (1, ..., 1) is a nonsingular solution at t = 0 and the path through it can be
   computed to any accuracy; x_0 = 1 + t.                                                  *)
EXTENDS GRat, FiniteSets, Json, SequencesExt, TLC
CONSTANTS Sim, MaxOps
VARIABLES sys, trk, step, hist
vars == <<sys, trk, step, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* the order of each predictor: its error over a step of length h is O(h^(order+1))
Order == [Constant |-> 0, Euler |-> 1, HeunEuler |-> 2, RK4 |-> 4, RKF45 |-> 4, RKCashKarp45 |-> 4, RKDormandPrince56 |-> 5, RKVerner67 |-> 6]
Predictors == DOMAIN Order
Coefs == {C0, C1, Zi(-1), CI, <<1, 1, 2>>, Q(1, 2), <<-1, 2, 3>>}
ACoefs == {C0, C1, CI, <<1, 1, 2>>, Q(-1, 2)}
Precs(ty) == IF ty = "dbl" THEN {16} ELSE IF ty = "mp" THEN {20, 30, 50, 90} ELSE {16, 30, 50, 90}
\* digits the error must have at a step of length 10^-k, when the working precision has p: a factor of 10^6 for the constant
Must(pr, k, p) == LET d == k * (Order[pr] + 1) - 6 IN IF d < p - 4 THEN d ELSE p - 4

Tick == step' = step + 1
Log(r) == hist' = Append(hist, r)
Skip == Tick /\ UNCHANGED <<sys, trk, hist>>

NewSys == \E n \in Pick(1..3), ev \in Pick({"SLP", "FT"}) :
    \E s \in {TLCEval([n |-> n, ev |-> ev, eq |-> TLCEval([j \in 1..n |-> IF Sim THEN [a |-> RandomElement(ACoefs), b |-> RandomElement(Coefs), c |-> RandomElement(Coefs \ {C0}), e |-> RandomElement(Coefs)]
                                                          ELSE [a |-> <<1, 1, 2>>, b |-> CI, c |-> Q(1, 2), e |-> C1]])])} :
       /\ sys' = Append(sys, s) /\ Log([o |-> "psys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED trk
NewTracker == \E ty \in Pick({"dbl", "mp", "amp"}), i \in Pick(1..Len(sys)) : \E p \in Pick(Precs(ty)) :
    /\ trk' = Append(trk, [ty |-> ty, sys |-> i, prec |-> p, pred |-> "RKF45"])
    /\ Log([o |-> "ptracker", id |-> Len(trk) + 1, ty |-> ty, sys |-> i, prec |-> p]) /\ Tick /\ UNCHANGED sys
SetPred == \E i \in Pick(1..Len(trk)), pr \in Pick(Predictors) :
    /\ trk' = [trk EXCEPT ![i].pred = pr] /\ Log([o |-> "ppred", id |-> i, pred |-> pr, prec |-> trk[i].prec]) /\ Tick /\ UNCHANGED sys
\* chosen while some other precision is current
SetPredElsewhere == \E i \in Pick(1..Len(trk)), pr \in Pick(Predictors), q \in Pick({16, 30, 60}) :
    IF trk[i].ty # "amp" THEN Skip
    ELSE /\ trk' = [trk EXCEPT ![i].pred = pr] /\ Log([o |-> "ppred", id |-> i, pred |-> pr, prec |-> q]) /\ Tick /\ UNCHANGED sys
SetSys == \E i \in Pick(1..Len(trk)), j \in Pick(1..Len(sys)) :
    /\ trk' = [trk EXCEPT ![i].sys = j] /\ Log([o |-> "ptsys", id |-> i, sys |-> j, prec |-> trk[i].prec]) /\ Tick /\ UNCHANGED sys
\* one step of length 10^-k in direction u
Measure == \E i \in Pick(1..Len(trk)), k \in Pick({2, 4, 6, 8}), u \in Pick({C1, Zi(-1), CI, <<3, 4, 5>>}) :
    LET T == trk[i]
    IN \E p \in Pick(IF T.ty = "amp" THEN Precs("amp") ELSE {T.prec}) :
       /\ Log([o |-> "measure", id |-> i, k |-> k, u |-> u, prec |-> p, pred |-> T.pred, digits |-> Must(T.pred, k, p)])
       /\ Tick /\ UNCHANGED <<sys, trk>>
\* the same step by two trackers with the same predictor: the same prediction, to the lesser precision
Same == \E i \in Pick(1..Len(trk)), k \in Pick({1, 2}), u \in Pick({C1, CI, <<3, 4, 5>>}), pr \in Pick(Predictors) :
    LET T == trk[i]
    IN \E p \in Pick(IF T.ty = "amp" THEN Precs("amp") ELSE {T.prec}) :
       /\ trk' = [trk EXCEPT ![i].pred = pr]
       /\ Log([o |-> "same", id |-> i, k |-> k, u |-> u, prec |-> p, pred |-> pr, digits |-> p - 4])
       /\ Tick /\ UNCHANGED sys

Finished == step >= MaxOps
Init == sys = <<>> /\ trk = <<>> /\ step = 0 /\ hist = <<>>
Next == IF Finished THEN FALSE
        ELSE IF sys = <<>> THEN NewSys
        ELSE IF trk = <<>> THEN NewTracker
        ELSE IF ~Sim THEN (IF step = 2 THEN SetPred ELSE Measure)
        ELSE \E k \in {RandomElement(1..20)} :
             CASE k = 1 -> IF Len(sys) < 3 THEN NewSys ELSE Skip
               [] k <= 3 -> IF Len(trk) < 4 THEN NewTracker ELSE Skip
               [] k <= 6 -> SetPred [] k = 7 -> SetPredElsewhere [] k = 8 -> SetSys
               [] k <= 15 -> Measure [] OTHER -> Same
Spec == Init /\ [][Next]_vars
Emit == Finished => PrintT("HIST " \o ToJson(hist))
\* a longer step never has to be better, nor a lower order
Monotone == \A pr \in Predictors, k \in 1..8, p \in {16, 30, 90} : Must(pr, k, p) <= Must(pr, k + 1, p) /\ Must("Constant", k, p) <= Must(pr, k, p)
=============================================================================
