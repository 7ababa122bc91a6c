------------------------------ MODULE HermSpec ------------------------------
(* Hermite interpolation: a polynomial of degree at most 2n-1 is determined by its values and
   derivatives at n distinct nodes, so that interpolating them is exact, whichever nodes, in
   whichever order, whatever surrounds the n samples asked for in the containers.  A history is
   a sequence of interpolations; each vector has d polynomials.                            *)
EXTENDS Herm, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Sim, MaxOps
VARIABLES step, hist
vars == <<step, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Coefs == {C0, C0, C1, Zi(-1), Zi(2), Q(1, 2), CI, <<1, -1, 2>>}
Nodes == {C1, Zi(-1), Zi(2), Q(1, 2), Q(-1, 2), Q(1, 4), CI, <<0, -1, 2>>, <<1, 1, 2>>}
Targets == {C0, C0, C1, Q(1, 3), Zi(-2), CI, <<1, 1, 2>>}
\* distinct nodes in any order
RECURSIVE Draw(_, _)
Draw(S, n) == IF n = 0 THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(S \ {x}, n - 1)

Rec(ty, prec, n, back, m, ps, ts, tgt) ==
    LET from == IF back THEN m - n ELSE 0
        xs == [k \in 1..m |-> [i \in 1..Len(ps) |-> IF k - from \in 1..n THEN ValAt(ps[i], ts[k]) ELSE Zi(77)]]
        ds == [k \in 1..m |-> [i \in 1..Len(ps) |-> IF k - from \in 1..n THEN ValAt(Deriv(ps[i]), ts[k]) ELSE Zi(-55)]]
    IN [o |-> "herm", ty |-> ty, prec |-> prec, n |-> n, back |-> back, m |-> m, target |-> tgt, times |-> ts, xs |-> xs, ds |-> ds,
        ans |-> [i \in 1..Len(ps) |-> ValAt(ps[i], tgt)],
        found |-> [i \in 1..Len(ps) |-> AsFound(ps[i], [k \in 1..n |-> ts[from + n + 1 - k]], tgt)]]
Known(r) == /\ \A k \in 1..r.m : \A i \in 1..Len(r.ans) : r.xs[k][i] # Undef /\ r.ds[k][i] # Undef
            /\ \A i \in 1..Len(r.ans) : r.ans[i] # Undef /\ r.found[i] # Undef
Do(r) == step' = step + 1 /\ hist' = IF Known(r) THEN Append(hist, r) ELSE hist

Random == \E n \in Pick(1..4), extra \in Pick(0..2), back \in Pick(BOOLEAN), ty \in Pick({"dbl", "mp"}), prec \in Pick({20, 30, 60}), d \in Pick(1..3), tgt \in Pick(Targets) :
    \E ps \in {TLCEval([i \in 1..d |-> TLCEval([k \in 1..(2 * n) |-> RandomElement(Coefs)])])}, ts \in {TLCEval(Draw(Nodes, n + extra))} :
       \E r \in {TLCEval(Rec(ty, IF ty = "dbl" THEN 16 ELSE prec, n, back, n + extra, ps, ts, tgt))} : Do(r)
\* every monomial the interpolation is exact for, at every selection of nodes
SmallNodes == {C1, Q(1, 2), Zi(-1), CI}
Arr(n) == {q \in [1..n -> SmallNodes] : \A i, j \in 1..n : i # j => q[i] # q[j]}
Every == \E n \in 1..3, extra \in 0..1, back \in BOOLEAN, ty \in {"dbl", "mp"}, tgt \in {C0, Zi(2)} : \E k \in 0..(2 * n - 1) : \E ts \in Arr(n + extra) :
       Do(Rec(ty, IF ty = "dbl" THEN 16 ELSE 30, n, back, n + extra, <<[q \in 1..(k + 1) |-> IF q = k + 1 THEN C1 ELSE C0], [q \in 1..(2 * n) |-> Zi(q)]>>, ts, tgt))
Finished == step >= MaxOps
Init == step = 0 /\ hist = <<>>
Next == ~Finished /\ (IF Sim THEN Random ELSE Every)
Spec == Init /\ [][Next]_vars
Emit == (Finished /\ hist # <<>>) => PrintT("HIST " \o ToJson(hist))
\* the derivative is the slope of the chord in the limit: p(t+h) - p(t) - h p'(t) vanishes for polynomials of degree 1
SlopeOK == \A q \in 1..Len(hist) : Len(hist[q].ans) > 0
=============================================================================
