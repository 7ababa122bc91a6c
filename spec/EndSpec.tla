------------------------------- MODULE EndSpec -------------------------------
(* Endgames: what running one promises, over histories of homotopies, trackers, endgames,
   settings and runs.

   A homotopy of the family has the functions
       f_i = (x_i - a_i)^(c_i) - b_i^(c_i) (t - T)
       g   = z - e_0 - e_1 (x_1 - a_1) - e_2 (x_1 - a_1)^2          (optional)
   so that with L = lcm(c_i) and s^L = t - T
       x_i = a_i + b_i s^(L/c_i),   z = e_0 + e_1 b_1 s^(L/c_1) + ...
   is a path which ends at t = T in the point (a, e_0), singular when some c_i > 1, and comes back
   to itself after L loops around T: its cycle number.  Starting points have s rational, so that
   everything is exact.  The paths x^c (t - T) = 1 end at infinity.                       *)
EXTENDS Herm, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Sim, MaxOps, Flavours, Kinds

VARIABLES sys, trk, eg, step, hist
vars == <<sys, trk, eg, step, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

RECURSIVE LcmOf(_)
LcmOf(q) == IF q = <<>> THEN 1 ELSE LET m == LcmOf(Tail(q)) IN (m * Head(q)) \div GCD(m, Head(q))
Cyc(s) == LcmOf(s.c)

\* where the endgame starts: t - T = s^L with |t - T| about 1/10
Starts(L) == CASE L = 1 -> {Q(1, 8), Q(1, 10), <<1, 1, 10>>, <<0, -1, 8>>}
               [] L = 2 -> {Q(1, 3), <<1, 1, 4>>, Q(-1, 3), <<0, 1, 4>>, <<1, -2, 8>>}
               [] L = 3 -> {Q(1, 2), Q(-1, 2), <<1, 1, 4>>, <<0, 1, 2>>}
               [] L = 4 -> {Q(1, 2), <<1, 1, 3>>, <<0, 1, 2>>, <<2, 1, 4>>}
               [] OTHER -> {Q(2, 3), <<1, 1, 2>>, <<0, -2, 3>>}
TimeAt(s, w) == Add(s.T, PowN(w, Cyc(s)))
Ext(s, w) == LET u == Mul(s.b[1], PowN(w, Cyc(s) \div s.c[1])) IN Add(s.e[1], Add(Mul(s.e[2], u), Mul(s.e[3], Mul(u, u))))
Coord(s, i, w) == Add(s.a[i], Mul(s.b[i], PowN(w, Cyc(s) \div s.c[i])))
At(s, w) == IF s.kind = "pole" THEN <<Inv(w)>>
            ELSE [i \in 1..Len(s.c) |-> Coord(s, i, w)] \o (IF s.e = <<>> THEN <<>> ELSE <<Ext(s, w)>>)
End(s) == IF s.kind = "pole" THEN <<>> ELSE s.a \o (IF s.e = <<>> THEN <<>> ELSE <<s.e[1]>>)
\* the same as polynomials in s
Mono(a, b, k) == [q \in 1..(k + 1) |-> IF q = 1 THEN a ELSE IF q = k + 1 THEN b ELSE C0]
Polys(s) == LET k == Cyc(s) \div s.c[1]
            IN [i \in 1..Len(s.c) |-> Mono(s.a[i], s.b[i], Cyc(s) \div s.c[i])]
               \o (IF s.e = <<>> THEN <<>> ELSE <<[q \in 1..(2 * k + 1) |-> IF q = 1 THEN s.e[1] ELSE IF q = k + 1 THEN Mul(s.e[2], s.b[1]) ELSE IF q = 2 * k + 1 THEN Mul(s.e[3], Mul(s.b[1], s.b[1])) ELSE C0]>>)
Known(v) == \A i \in 1..Len(v) : v[i] # Undef
Vars(s) == Len(s.c) + (IF s.e = <<>> THEN 0 ELSE 1)

Tick == step' = step + 1
Log(r) == hist' = Append(hist, r)
Skip == Tick /\ UNCHANGED <<sys, trk, eg, hist>>

Cycles == IF Sim THEN {<<1>>, <<2>>, <<3>>, <<4>>, <<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<2, 4>>, <<2, 1, 2>>} ELSE {<<1>>, <<2>>, <<3>>, <<2, 1>>}
As == {C0, C1, Zi(-2), Q(3, 2), CI, <<1, -2, 2>>}
Bs == {C1, Zi(-1), CI, Q(1, 2), <<1, 1, 2>>}
Ts == IF Sim THEN {C0, C0, Q(1, 2), CI, Zi(-1)} ELSE {C0, Q(1, 2)}
NewSys == \E c \in Pick(Cycles), ext \in Pick(BOOLEAN), proj \in Pick(IF Sim THEN {TRUE, FALSE, FALSE} ELSE {FALSE}), ev \in Pick(IF Sim THEN {"SLP", "FT"} ELSE {"SLP"}), T \in Pick(Ts) :
    \E s \in {TLCEval([kind |-> "root", c |-> c, proj |-> proj, ev |-> ev, T |-> T,
                      a |-> TLCEval([i \in 1..Len(c) |-> IF Sim THEN RandomElement(As) ELSE <<1, -2, 2>>]),
                      b |-> TLCEval([i \in 1..Len(c) |-> IF Sim THEN RandomElement(Bs) ELSE CI]),
                      e |-> IF ext THEN TLCEval([i \in 1..3 |-> IF ~Sim THEN Q(i, 2) ELSE IF i = 1 THEN RandomElement(As) ELSE RandomElement({C0, C1, Q(-1, 2), CI})]) ELSE <<>>])} :
       /\ sys' = Append(sys, s) /\ Log([o |-> "sys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED <<trk, eg>>
NewPole == \E c \in Pick({1, 2, 3}), proj \in Pick({TRUE}), T \in Pick(Ts) :
    LET s == [kind |-> "pole", c |-> <<c>>, proj |-> proj, ev |-> "SLP", T |-> T, a |-> <<>>, b |-> <<>>, e |-> <<>>]
    IN /\ sys' = Append(sys, s) /\ Log([o |-> "sys", id |-> Len(sys) + 1, s |-> s]) /\ Tick /\ UNCHANGED <<trk, eg>>
Precs(ty) == IF ty = "dbl" THEN {16} ELSE IF ~Sim THEN (IF ty = "mp" THEN {30} ELSE {16, 30}) ELSE IF ty = "mp" THEN {30, 40} ELSE {16, 20, 30}
NewTracker == \E ty \in Pick(Kinds), i \in Pick(1..Len(sys)), pr \in Pick(IF Sim THEN {"RKF45", "RK4", "HeunEuler", "RKCashKarp45"} ELSE {"RKF45"}), tol \in Pick(IF Sim THEN {6, 7, 8} ELSE {6}) : \E p \in Pick(Precs(ty)) :
    LET r == [ty |-> ty, sys |-> i, prec |-> p, pred |-> pr, tol |-> tol]
    IN /\ trk' = Append(trk, r) /\ Log([o |-> "tracker", id |-> Len(trk) + 1, r |-> r]) /\ Tick /\ UNCHANGED <<sys, eg>>
OtherSys == \E i \in Pick(1..Len(trk)), j \in Pick(1..Len(sys)) :
    /\ trk' = [trk EXCEPT ![i].sys = j] /\ Log([o |-> "settrsys", id |-> i, sys |-> j]) /\ Tick /\ UNCHANGED <<sys, eg>>

DefaultEG == [points |-> 3, factor |-> Q(1, 2), tol |-> 11, mintime |-> 100, level |-> 0, maxnorm |-> 10000, failsafe |-> 250, flat |-> 50]
NewEG == \E f \in Pick(Flavours), i \in Pick(1..Len(trk)) :
    /\ eg' = Append(eg, [f |-> f, trk |-> i, ty |-> trk[i].ty, set |-> FALSE, c |-> DefaultEG])
    /\ Log([o |-> "eg", id |-> Len(eg) + 1, f |-> f, trk |-> i]) /\ Tick /\ UNCHANGED <<sys, trk>>
SetEG == \E i \in Pick(1..Len(eg)), pts \in Pick(IF Sim THEN {3, 3, 4, 5} ELSE {3, 4}), fa \in Pick(IF Sim THEN {Q(1, 2), Q(1, 2), Q(1, 3), Q(3, 5), Q(1, 4)} ELSE {Q(1, 2), Q(1, 3)}),
            mt \in Pick(IF Sim THEN {100, 100, 100, 100, 2, 3} ELSE {100}), lev \in Pick(IF Sim THEN {0, 1} ELSE {0}), mn \in Pick(IF Sim THEN {10000, 100} ELSE {100}), fs \in Pick(IF Sim THEN {250, 250, 250, 1, 2, 3} ELSE {250}), fl \in Pick(IF Sim THEN {50, 90, 97} ELSE {50}) :
    \E tol \in Pick(IF ~Sim THEN {6, 8} ELSE IF eg[i].ty = "dbl" THEN {6, 7, 8} ELSE {8, 9, 11, 12}) :
    LET c == [points |-> pts, factor |-> fa, tol |-> tol, mintime |-> mt, level |-> lev, maxnorm |-> mn, failsafe |-> fs, flat |-> fl]
    IN /\ eg' = [eg EXCEPT ![i].c = c, ![i].set = TRUE] /\ Log([o |-> "set", id |-> i, c |-> c]) /\ Tick /\ UNCHANGED <<sys, trk>>
\* an endgame may be given another tracker of the same type
EGTracker == \E i \in Pick(1..Len(eg)), j \in Pick(1..Len(trk)) :
    IF trk[j].ty # eg[i].ty THEN Skip
    ELSE /\ eg' = [eg EXCEPT ![i].trk = j] /\ Log([o |-> "egtr", id |-> i, trk |-> j]) /\ Tick /\ UNCHANGED <<sys, trk>>

\* what a run must answer
\* double precision may not reach a tolerance this tight: the time itself is only known to sixteen digits
Hard(g) == g.ty = "dbl" /\ g.c.tol > 8
Codes(g, s) ==
    LET c == g.c
        soon == (IF c.mintime < 100 THEN {"MinTrackTimeReached"} ELSE {})
                \union (IF Hard(g) THEN {"MinTrackTimeReached", "MinStepSizeReached", "FailedToConverge"} ELSE {})
        low == g.f = "cauchy" /\ c.failsafe < Cyc(s)
    IN IF s.kind = "root" THEN (IF low THEN {"CycleNumTooHigh"} ELSE {"Success"}) \union soon
       \* the Cauchy endgame looks for convergence, which there is at infinity too, before it looks at the norms
       ELSE IF c.level = 0 THEN {"SecurityMaxNormReached"} \union (IF g.f = "cauchy" /\ ~low THEN {"Success"} ELSE {}) \union soon \union (IF low THEN {"CycleNumTooHigh"} ELSE {})
       ELSE (IF low THEN {"CycleNumTooHigh"} ELSE {"Success"}) \union soon
\* paths to infinity need homogeneous coordinates
Judged(g, s) == s.kind = "root" \/ s.proj
Run == \E i \in Pick(1..Len(eg)), rec \in Pick(IF Sim THEN BOOLEAN ELSE {FALSE}), dflt \in Pick(IF Sim THEN BOOLEAN ELSE {TRUE}) :
    LET g == eg[i]
        T == trk[g.trk]
        s == sys[T.sys]
    IN \E w \in Pick(Starts(Cyc(s))), p \in Pick(IF T.ty = "amp" THEN Precs("amp") ELSE {T.prec}) :
       LET t0 == TimeAt(s, w)
           x0 == At(s, w)
       IN IF t0 = Undef \/ ~Known(x0) \/ ~Judged(g, s) THEN Skip
          ELSE /\ Log([o |-> "run", codes |-> Codes(g, s), id |-> i, prec |-> p, w |-> w, t0 |-> t0, T |-> s.T, x0 |-> x0, x1 |-> End(s), L |-> Cyc(s), hard |-> Hard(g), rec |-> rec, dflt |-> dflt /\ s.T = C0, c |-> g.c])
               /\ Tick /\ UNCHANGED <<sys, trk, eg>>
\* an approximation from exact samples
Ratios == {Q(1, 2), Q(2, 3), Q(3, 4)}
Approx == \E i \in Pick(1..Len(eg)), more \in Pick({0, 1}), r \in Pick(Ratios) :
    LET g == eg[i]
        T == trk[g.trk]
        s == sys[T.sys]
        n == g.c.points + more
    IN IF g.f # "ps" \/ s.kind = "pole" \/ s.proj \/ T.ty = "amp" THEN Skip
       ELSE \E w \in Pick(Starts(Cyc(s))) :
       LET ws == [k \in 1..n |-> Mul(w, PowN(r, k - 1))]
           ts == [k \in 1..n |-> IF ws[k] = Undef THEN Undef ELSE TimeAt(s, ws[k])]
           xs == [k \in 1..n |-> IF ws[k] = Undef THEN <<Undef>> ELSE At(s, ws[k])]
           fac == PowN(r, Cyc(s))
           \* the degree in s must be one the interpolation which finds the cycle number is exact for
           deg == (Cyc(s) \div s.c[1]) * (IF s.e # <<>> /\ s.e[3] # C0 THEN 2 ELSE 1)
           fits == \A d \in {deg} \union {Cyc(s) \div s.c[k] : k \in 1..Len(s.c)} : d <= 2 * (IF more = 0 THEN g.c.points - 1 ELSE g.c.points) - 1
       IN IF ~Known(ts) \/ (\E k \in 1..n : ~Known(xs[k])) \/ fac = Undef \/ ~fits THEN Skip
          ELSE /\ Log([o |-> "approx", id |-> i, prec |-> T.prec, n |-> n, factor |-> fac, back |-> g.c, times |-> ts, points |-> xs, T |-> s.T, x1 |-> End(s), L |-> Cyc(s),
                       found |-> [k \in 1..Vars(s) |-> AsFound(Polys(s)[k], [q \in 1..g.c.points |-> ws[n + 1 - q]], C0)]])
               /\ Tick /\ UNCHANGED <<sys, trk, eg>>
WrongSize == \E i \in Pick(1..Len(eg)), by \in Pick({-1, 1}) :
    LET T == trk[eg[i].trk]
        n == Vars(sys[T.sys]) + (IF sys[T.sys].proj THEN 1 ELSE 0) + by
    IN IF n = 0 THEN Skip
       ELSE /\ Log([o |-> "wrongsize", id |-> i, n |-> n, prec |-> T.prec]) /\ Tick /\ UNCHANGED <<sys, trk, eg>>

Finished == step >= MaxOps
Init == sys = <<>> /\ trk = <<>> /\ eg = <<>> /\ step = 0 /\ hist = <<>>
Next == IF Finished THEN FALSE
        ELSE IF sys = <<>> THEN (IF Sim THEN NewSys ELSE NewSys \/ NewPole)
        ELSE IF trk = <<>> THEN NewTracker
        ELSE IF eg = <<>> THEN NewEG
        ELSE IF ~Sim THEN (IF ~eg[1].set THEN SetEG ELSE Run \/ Approx \/ WrongSize)
        ELSE \E k \in {RandomElement(1..20)} :
             CASE k = 1 -> IF Len(sys) < 4 THEN NewSys ELSE Skip
               [] k = 2 -> IF Len(sys) < 4 THEN NewPole ELSE Skip
               [] k = 3 -> IF Len(trk) < 3 THEN NewTracker ELSE Skip
               [] k = 4 -> IF Len(eg) < 3 THEN NewEG ELSE Skip
               [] k \in {5, 6, 7} -> SetEG [] k \in {8, 9} -> OtherSys [] k = 10 -> EGTracker [] k = 11 -> WrongSize
               [] k \in {12, 13} -> Approx
               [] OTHER -> Run
Spec == Init /\ [][Next]_vars
\* the start points solve the homotopy, and the end points are where the family says
OnPath == Finished => \A q \in 1..Len(hist) : hist[q].o = "run" => Len(hist[q].x1) \in {0, Len(hist[q].x0)}
Emit == Finished => PrintT("HIST " \o ToJson(hist))
=============================================================================
