----------------------------- MODULE TrackSpec -----------------------------
(* Path trackers: what tracking promises, over histories of systems, trackers, settings, tracks
   and refinements.

   A homotopy of the family has the functions
       f_i = (x_i - p_i(t)) (x_i - p_i(t) + d_i) + k_i (x_{i-1} - p_{i-1}(t)) x_i
   with polynomials p_i and constants |d_i| >= 6, so that x = p(t) is a path of nonsingular
   solutions, known exactly at every time, and far from every other one.  A tracker follows it
   from any time to any other, whatever it did before; what it answers when it is not allowed to,
   or cannot, is fixed as well.                                                             *)
EXTENDS GRat, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Sim,      \* random choices (simulation) or all (exhaustive)
          MaxOps, Kinds,     \* Kinds: tracker types
          Slow               \* allow the expensive failing tracks

VARIABLES sys,      \* sequence of homotopies
          trk,      \* sequence of trackers
          step, hist
vars == <<sys, trk, step, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* ------------------------------------------------------------- the exact path
Times == IF Sim THEN {C0, C1, Zi(-1), Q(1, 2), Q(1, 4), CI, <<1, 1, 2>>, <<3, -1, 4>>, Q(1, 16), Q(1, 3), <<2, 1, 3>>} ELSE {C1, C0, Q(1, 2)}
Coef0 == {C0, C1, Zi(-2), Q(3, 2), CI, <<1, -2, 2>>, Zi(3)}
Coef1 == {C0, C1, Zi(-1), Q(1, 2), CI, <<1, 1, 2>>}
Coef2 == {C0, C0, Q(1, 2), Q(-1, 3), <<0, 1, 2>>}
Coef3 == {C0, C0, Q(1, 3), Q(-1, 4), <<0, 1, 4>>}
Gaps == {Zi(6), Zi(-7), <<5, 4, 1>>, <<0, -6, 1>>}

RECURSIVE Horner(_, _)
Horner(c, t) == IF c = <<>> THEN C0 ELSE Add(Head(c), Mul(t, Horner(Tail(c), t)))
At(s, t) == [i \in 1..s.n |-> Horner(s.p[i], t)]

\* size bounds in units of 1/12 (all coefficient denominators divide 12)
U(c) == (12 \div c[3]) * (Abs(c[1]) + Abs(c[2]))
SumU(q) == FoldSeq(LAMBDA c, a : a + U(c), 0, q)
\* |t| <= 3/2: |p| <= |c0| + 3/2|c1| + 9/4|c2| + 27/8|c3|, rounded up, over all coordinates
PathBound(s) == FoldSeq(LAMBDA c, a : a + U(c[1]) + 2 * U(c[2]) + 3 * U(c[3]) + 4 * U(c[4]), 0, s.p)
Norm2(v) == FoldSeq(LAMBDA c, a : IF c = Undef THEN Undef ELSE Add(a, Mk(c[1]*c[1] + c[2]*c[2], 0, c[3]*c[3])), C0, v)   \* Undef when too large for exact arithmetic
Exceeds(q, b) == q # Undef /\ b < 100 /\ q[1] > 2 * b * b * q[3]        \* norm^2 > 2 b^2
IsLinear(s) == \A i \in 1..s.n : s.p[i][3] = C0 /\ s.p[i][4] = C0

\* steps of length h (1/den) needed for the segment t0 -> t1, when its length is rational (axis parallel)
Axis(t0, t1) == LET d == Sub(t1, t0) IN d[1] = 0 \/ d[2] = 0
Len1(t0, t1) == LET d == Sub(t1, t0) IN Q(Abs(d[1]) + Abs(d[2]), d[3])
CeilQ(q) == (q[1] + q[3] - 1) \div q[3]
MinQ(a, b) == IF a[1] * b[3] <= b[1] * a[3] THEN a ELSE b
FirstStep(c, t0, t1) == MinQ(c.h, Mul(Len1(t0, t1), Q(1, c.minsteps)))
Needed(c, t0, t1) == CeilQ(Div(Len1(t0, t1), IF c.reinit THEN FirstStep(c, t0, t1) ELSE c.cur))

\* ------------------------------------------------------------- bookkeeping
Tick == step' = step + 1
Log(r) == hist' = Append(hist, r)
Skip == Tick /\ UNCHANGED <<sys, trk, hist>>
Predictors == {"Constant", "Euler", "RK4", "HeunEuler", "RKF45", "RKCashKarp45", "RKDormandPrince56", "RKVerner67"}
Steps == {Q(1, 8), Q(1, 16), Q(1, 10)}
IsDyadic(q) == q[3] \in {1, 2, 4, 8, 16, 32}
Tols(ty) == IF ty = "dbl" THEN 4..9 ELSE IF ty = "mp" THEN 4..18 ELSE 4..13 \union {17, 20, 24}
\* tighter tolerances than these take a predictor of low order too many steps
Cap(pr) == CASE pr = "Constant" -> 5 [] pr = "Euler" -> 9 [] pr = "HeunEuler" -> 12 [] pr = "RK4" -> 20 [] OTHER -> 24
Precs(ty) == IF ty = "dbl" THEN {16} ELSE IF ty = "mp" THEN {30, 40} ELSE {16, 20, 30, 50}

\* the settings a new tracker has (the documented defaults)
Default(ty) == [pred |-> "RKF45", tol |-> 5, trunc |-> 100000, h |-> Q(1, 10), cur |-> Q(1, 10), minsteps |-> 1, maxsteps |-> 100000,
                inf |-> TRUE, reinit |-> TRUE, newton |-> 2, low |-> FALSE, least |-> 100,
                fail |-> Q(1, 2), succ |-> Zi(2), before |-> 5, lessbefore |-> 10, lessmax |-> 10, maxprec |-> 90]

\* ------------------------------------------------------------- transitions
MkPath(n, lin) == TLCEval([i \in 1..n |-> <<RandomElement(Coef0), RandomElement(Coef1), IF lin THEN C0 ELSE RandomElement(Coef2), IF lin THEN C0 ELSE RandomElement(Coef3)>>])
NewSys == \E n \in Pick(IF Sim THEN 1..3 ELSE {1, 2}), lin \in Pick(BOOLEAN), proj \in Pick(IF Sim THEN {TRUE, FALSE, FALSE} ELSE {FALSE}), ev \in Pick({"SLP", "FT"}) :
    \E s \in {TLCEval([n |-> n, kind |-> "path", proj |-> proj, ev |-> ev,
                      p |-> IF Sim THEN MkPath(n, lin)
                            ELSE [i \in 1..n |-> <<Q(i, 2), <<1, 1, 2>>, IF lin THEN C0 ELSE Q(1, 3), IF lin THEN C0 ELSE <<0, 1, 4>>>>],
                      d |-> TLCEval([i \in 1..n |-> IF Sim THEN RandomElement(Gaps) ELSE <<5, 4, 1>>]),
                      k |-> TLCEval([i \in 1..n |-> IF i = 1 THEN C0 ELSE IF Sim THEN RandomElement({C0, C1, Zi(-2), CI}) ELSE CI])])} :
       /\ sys' = Append(sys, s) /\ Log([o |-> "sys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED trk
\* a path that ends: x^2 = t - 1/2 on the real line
NewBranch == LET s == [n |-> 1, kind |-> "branch", proj |-> FALSE, ev |-> "SLP", p |-> <<>>, d |-> <<>>, k |-> <<>>]
             IN /\ sys' = Append(sys, s) /\ Log([o |-> "sys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED trk
\* a path to infinity: t x = 1
NewPole == \E proj \in Pick(BOOLEAN) :
             LET s == [n |-> 1, kind |-> "pole", proj |-> proj, ev |-> "SLP", p |-> <<>>, d |-> <<>>, k |-> <<>>]
             IN /\ sys' = Append(sys, s) /\ Log([o |-> "sys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED trk

\* two straight paths which come within 10^-g of each other at t = 1/2
NewNear == \E n \in Pick({1, 2}), g \in Pick({3, 5, 7, 8}) :
             \E s \in {TLCEval([n |-> n, kind |-> "near", g |-> g, proj |-> FALSE, ev |-> RandomElement({"SLP", "FT"}), p |-> MkPath(n, TRUE),
                               d |-> [i \in 1..n |-> C1], k |-> [i \in 1..n |-> C0]])} :
                /\ sys' = Append(sys, s) /\ Log([o |-> "sys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED trk

NewTracker == \E ty \in Pick(Kinds), i \in Pick(1..Len(sys)) : \E p \in Pick(Precs(ty)) :
    /\ trk' = Append(trk, [ty |-> ty, sys |-> i, prec |-> p, set |-> FALSE, c |-> Default(ty)])
    /\ Log([o |-> "tracker", id |-> Len(trk) + 1, ty |-> ty, sys |-> i, prec |-> p])
    /\ Tick /\ UNCHANGED sys
Setup == \E i \in Pick(1..Len(trk)), pr \in Pick(IF Sim THEN Predictors ELSE {"Constant", "RK4"}), h \in Pick(IF Sim THEN Steps ELSE {Q(1, 8)}),
            ms \in Pick(IF Sim THEN {1, 1, 1, 20, 50} ELSE {1}), N \in Pick(IF Sim THEN {100000, 100000, 100000, 1, 5, 9} ELSE {100000, 2}), low \in Pick(IF Sim THEN {FALSE, FALSE, FALSE, FALSE, TRUE} ELSE {FALSE}),
            nw \in Pick(IF Sim THEN {2, 2, 3} ELSE {2}), tr \in Pick(IF Sim THEN {100000, 100000, 4, 7, 12} ELSE {100000}) :
    \E tol \in Pick(IF Sim THEN Tols(trk[i].ty) ELSE {5}) :
    \E fa \in Pick(IF Sim THEN {Q(1, 2), Q(1, 4), Q(2, 3)} ELSE {Q(1, 2)}), su \in Pick(IF Sim THEN {Zi(2), Q(3, 2), Zi(3)} ELSE {Zi(2)}), be \in Pick(IF Sim THEN {1, 2, 5} ELSE {5}),
       lb \in Pick(IF Sim THEN {1, 3, 10} ELSE {10}), lm \in Pick(IF Sim THEN {0, 1, 2, 10} ELSE {10}), mp \in Pick(IF Sim THEN {90, 90, 30, 45} ELSE {90}) :
    LET c == [trk[i].c EXCEPT !.fail = fa, !.succ = su, !.before = be, !.lessbefore = lb, !.lessmax = lm, !.maxprec = mp, !.pred = pr, !.tol = tol, !.trunc = tr, !.h = h, !.cur = h, !.minsteps = ms, !.maxsteps = N, !.newton = nw, !.low = low, !.least = 25]
    IN /\ trk' = [trk EXCEPT ![i].set = TRUE, ![i].c = c]
       /\ Log([o |-> "setup", id |-> i, c |-> c]) /\ Tick /\ UNCHANGED sys
SetPredictor == \E i \in Pick(1..Len(trk)), pr \in Pick(Predictors) :
    /\ trk' = [trk EXCEPT ![i].c.pred = pr] /\ Log([o |-> "pred", id |-> i, pred |-> pr]) /\ Tick /\ UNCHANGED sys
SetTol == \E i \in Pick(1..Len(trk)) : \E tol \in Pick(Tols(trk[i].ty)) :
    /\ trk' = [trk EXCEPT ![i].c.tol = tol] /\ Log([o |-> "tol", id |-> i, tol |-> tol]) /\ Tick /\ UNCHANGED sys
BadTol == \E i \in Pick(1..Len(trk)), w \in Pick({"ttol", "ttrunc"}), v \in Pick({"0", "-1/100"}) :
    /\ Log([o |-> "badtol", id |-> i, w |-> w, v |-> v]) /\ Tick /\ UNCHANGED <<sys, trk>>
SetTrunc == \E i \in Pick(1..Len(trk)), b \in Pick({4, 7, 12, 100000}), on \in Pick({TRUE, TRUE, FALSE}) :
    /\ trk' = [trk EXCEPT ![i].c.trunc = b, ![i].c.inf = on] /\ Log([o |-> "trunc", id |-> i, b |-> b, on |-> on]) /\ Tick /\ UNCHANGED sys
Reinit == \E i \in Pick(1..Len(trk)), on \in Pick(BOOLEAN), h \in Pick({Q(1, 8), Q(1, 16), Q(1, 32)}) :
    /\ trk' = [trk EXCEPT ![i].c.reinit = on, ![i].c.cur = h] /\ Log([o |-> "reinit", id |-> i, on |-> on, h |-> h]) /\ Tick /\ UNCHANGED sys
OtherSys == \E i \in Pick(1..Len(trk)), j \in Pick(1..Len(sys)) :
    /\ trk' = [trk EXCEPT ![i].sys = j] /\ Log([o |-> "settrsys", id |-> i, sys |-> j]) /\ Tick /\ UNCHANGED sys

\* what tracking from t0 to t1 along the path must answer: the codes allowed, and the steps where they are determined
\* m = how many steps there must at least be (an adaptive tracker may take smaller steps, none may take larger ones)
Fixed(T) == T.ty # "amp"
Must(T, s, t0, t1) ==
    LET c == T.c
        v1 == At(s, t1)
        big == c.inf /\ Exceeds(Norm2(v1), c.trunc)
        small == ~c.inf \/ 12 * c.trunc > PathBound(s)
        start == c.inf /\ ~small
        count == Axis(t0, t1) /\ Fixed(T) /\ IsLinear(s) /\ c.pred # "Constant" /\ IsDyadic(IF c.reinit THEN FirstStep(c, t0, t1) ELSE c.cur)
                 /\ IsDyadic(t0) /\ IsDyadic(t1) /\ ~s.proj
        need == IF ~Axis(t0, t1) THEN 0 ELSE IF Fixed(T) THEN Needed(c, t0, t1)
                ELSE CeilQ(Div(Len1(t0, t1), c.h))                    \* an adaptive tracker's steps may grow to the largest allowed
    IN IF c.low THEN [codes |-> {"MinStepSizeReached"}, steps |-> 0, exact |-> TRUE]
       ELSE IF c.maxsteps < 100000 THEN
            IF small /\ count /\ need > c.maxsteps THEN [codes |-> {"MaxNumStepsTaken"}, steps |-> c.maxsteps, exact |-> TRUE]
            ELSE IF small /\ count THEN [codes |-> {"Success"}, steps |-> need, exact |-> TRUE]
            ELSE [codes |-> {"Success", "MaxNumStepsTaken", "GoingToInfinity"}, steps |-> 0, exact |-> FALSE]
       ELSE IF big THEN [codes |-> {"GoingToInfinity"}, steps |-> 0, exact |-> FALSE]
       ELSE IF small THEN [codes |-> {"Success"}, steps |-> need, exact |-> count]
       ELSE [codes |-> {"Success", "GoingToInfinity"}, steps |-> 0, exact |-> FALSE]

\* an adaptive tracker may need more than it is allowed
Allowed(T, codes) == IF T.ty = "amp" /\ T.c.maxprec < 90 THEN codes \union {"MaxPrecisionReached"} ELSE codes
\* the retained step size is only known when no step failed: reset it explicitly afterwards
Track == \E i \in Pick(1..Len(trk)), rev \in Pick(BOOLEAN), rec \in Pick(IF Sim THEN {TRUE, FALSE, FALSE} ELSE {TRUE}) :
    LET T == trk[i]
        s == sys[T.sys]
    IN IF s.kind \notin {"path", "near"} \/ (s.kind = "near" /\ (Fixed(T) \/ T.c.pred = "Constant")) THEN Skip
       ELSE \E t0 \in Pick(Times) : \E t1 \in Pick(Times \ {t0}), p \in Pick(IF T.ty = "amp" THEN Precs("amp") ELSE {T.prec}), same \in Pick({TRUE, FALSE}) :
            LET x0 == At(s, t0)
                x1 == At(s, t1)
                m == Must(T, s, t0, t1)
            IN IF (\E q \in 1..s.n : x0[q] = Undef \/ x1[q] = Undef) \/ (~T.c.reinit /\ ~m.exact) \/ T.c.tol > Cap(T.c.pred) THEN Skip
               ELSE /\ Log([o |-> "track", id |-> i, prec |-> p, tprec |-> IF T.ty = "amp" /\ (T.c.tol > 13 \/ ~same) THEN 50 ELSE p, t0 |-> t0, t1 |-> t1, x0 |-> x0, x1 |-> x1, codes |-> Allowed(T, m.codes), steps |-> m.steps, exact |-> m.exact,
                            again |-> rev, rec |-> rec, tol |-> T.c.tol, c |-> T.c])
                    /\ Tick /\ UNCHANGED <<sys, trk>>
\* tracking that cannot succeed
TrackBad == \E i \in Pick(1..Len(trk)), rec \in Pick(BOOLEAN) :
    LET T == trk[i]
        s == sys[T.sys]
    IN IF ~Slow \/ T.c.tol > Cap(T.c.pred) THEN Skip
       ELSE IF s.kind = "branch" THEN
            /\ Log([o |-> "trackbad", id |-> i, prec |-> T.prec, t0 |-> Q(3, 2), t1 |-> C0, x0 |-> <<C1>>, rec |-> rec, tol |-> T.c.tol, c |-> T.c,
                    codes |-> {"MinStepSizeReached", "MaxNumStepsTaken", "MaxPrecisionReached"} \union (IF T.c.inf THEN {"GoingToInfinity"} ELSE {})])
            /\ Tick /\ UNCHANGED <<sys, trk>>
       ELSE IF s.kind = "pole" THEN
            /\ Log([o |-> "trackbad", id |-> i, prec |-> T.prec, t0 |-> C1, t1 |-> C0, x0 |-> <<C1>>, rec |-> rec, tol |-> T.c.tol, c |-> T.c,
                    codes |-> Allowed(T, IF T.c.low THEN {"MinStepSizeReached"}
                              ELSE IF T.c.maxsteps < 100000 THEN {"MaxNumStepsTaken", "GoingToInfinity"} \union (IF s.proj /\ ~T.c.inf THEN {"Success"} ELSE {})
                              ELSE IF T.c.inf THEN {"GoingToInfinity"}
                              ELSE IF s.proj THEN {"Success"}
                              ELSE {"MinStepSizeReached", "MaxNumStepsTaken", "MaxPrecisionReached"})])
            /\ Tick /\ UNCHANGED <<sys, trk>>
       ELSE \E t0 \in Pick(Times) :
            \* half way between two solutions the Jacobian is singular
            LET x0 == [q \in 1..s.n |-> IF q = 1 THEN Sub(At(s, t0)[1], Div(s.d[1], Zi(2))) ELSE At(s, t0)[q]]
            IN IF s.proj \/ (\E q \in 1..s.n : x0[q] = Undef) \/ t0 = C0 THEN Skip
               ELSE /\ Log([o |-> "trackbad", id |-> i, prec |-> T.prec, t0 |-> t0, t1 |-> C0, x0 |-> x0, rec |-> rec, tol |-> T.c.tol, c |-> T.c,
                            codes |-> IF T.ty = "amp" THEN Allowed(T, {"SingularStartPoint"}) ELSE {"MinStepSizeReached"} \union (IF T.c.inf THEN {"GoingToInfinity"} ELSE {})])
                    /\ Tick /\ UNCHANGED <<sys, trk>>
\* misuse is refused
WrongSize == \E i \in Pick(1..Len(trk)), by \in Pick({-1, 1}) :
    LET n == sys[trk[i].sys].n + (IF sys[trk[i].sys].proj THEN 1 ELSE 0) + by
    IN IF n = 0 THEN Skip
       ELSE /\ Log([o |-> "wrongsize", id |-> i, n |-> n, prec |-> trk[i].prec]) /\ Tick /\ UNCHANGED <<sys, trk>>
WrongPrec == \E i \in Pick(1..Len(trk)), w \in Pick({"point", "default"}) :
    IF trk[i].ty # "mp" THEN Skip
    ELSE /\ Log([o |-> "wrongprec", id |-> i, w |-> w, n |-> sys[trk[i].sys].n + (IF sys[trk[i].sys].proj THEN 1 ELSE 0), prec |-> trk[i].prec]) /\ Tick /\ UNCHANGED <<sys, trk>>
\* Newton's method from close by
Refine == \E i \in Pick(1..Len(trk)), how \in Pick({"default", "given", "toofew"}), t \in Pick(Times), e \in Pick({3, 4, 5}) :
    LET T == trk[i]
        s == sys[T.sys]
    IN IF s.kind # "path" \/ s.proj THEN Skip
       ELSE \E p \in Pick(IF T.ty = "amp" THEN Precs("amp") ELSE {T.prec}) :
            LET x == At(s, t)
            IN IF \E q \in 1..s.n : x[q] = Undef THEN Skip
               ELSE /\ Log([o |-> "refine", id |-> i, prec |-> p, how |-> how, t |-> t, x |-> x, e |-> e, tol |-> T.c.tol, newton |-> T.c.newton])
                    /\ Tick /\ UNCHANGED <<sys, trk>>

Finished == step >= MaxOps
Init == sys = <<>> /\ trk = <<>> /\ step = 0 /\ hist = <<>>
Next == IF Finished THEN FALSE
        ELSE IF sys = <<>> THEN NewSys
        ELSE IF trk = <<>> THEN NewTracker
        ELSE IF ~Sim THEN (IF ~trk[1].set THEN Setup ELSE Track \/ WrongSize \/ WrongPrec \/ Refine \/ OtherSys)
        ELSE \E k \in {RandomElement(1..40)} :
             CASE k <= 2 -> IF Len(sys) < 3 THEN NewSys ELSE Skip
               [] k = 3 -> IF Slow /\ Len(sys) < 3 THEN NewBranch ELSE Skip
               [] k = 4 -> IF Slow /\ Len(sys) < 3 THEN NewPole ELSE Skip
               [] k = 40 \/ (k \in {36, 37, 38, 39} /\ Kinds = {"amp"}) -> IF "amp" \in Kinds /\ Len(sys) < 3 THEN NewNear ELSE Skip
               [] k = 5 -> IF Len(trk) < 3 THEN NewTracker ELSE Skip
               [] k <= 9 -> Setup [] k = 10 -> SetPredictor [] k = 11 -> SetTol [] k = 12 -> SetTrunc [] k = 13 -> OtherSys
               [] k = 14 -> WrongSize [] k = 15 -> WrongPrec [] k = 16 -> BadTol [] k \in {17, 18} -> Reinit
               [] k \in 19..22 -> Refine [] k \in {23, 24} -> TrackBad [] OTHER -> Track
Spec == Init /\ [][Next]_vars

\* the two bounds used for truncation never contradict each other, and every answer demanded exists
Consistent == Finished =>
              /\ \A j \in 1..Len(sys), t \in Times, B \in {4, 7, 12, 100000} :
                   sys[j].kind = "path" => ~(Exceeds(Norm2(At(sys[j], t)), B) /\ 12 * B > PathBound(sys[j]))
              /\ \A q \in 1..Len(hist) : hist[q].o \in {"track", "trackbad"} => hist[q].codes # {}
Emit == Finished => PrintT("HIST " \o ToJson(hist))
=============================================================================
