------------------------------ MODULE ZeroSpec ------------------------------
(* Zero-dimensional solves.

   "clone" problems: the target is a list of products of linear forms, each form in the variables
   of one group.  Choosing a factor of every function, as many of every group as its dimension,
   gives linear systems with one projective solution each; these are all the solutions, and the
   multiplicity of a solution is the number of choices which give it.  A solve tracks one path
   per choice, and the paths end at the solutions, as many at each as its multiplicity; those at
   infinity are seen as such.

   "user" problems: one function Prod_k (x - p_k(t)) with straight paths p_k given by where they
   are at the endgame boundary and where they end; the boundary points are as in MidSpec, so that
   which paths look crossed there is known: these are tracked again, as often as allowed, and no
   others; a path beyond the truncation threshold at the boundary is given up.

   The metadata say of every path what happened to it.  A second solve gives what a first gives. *)
EXTENDS GRat, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Sim, MaxOps, Tops, Kinds, Flavours

VARIABLES prob, cfg, step, hist
vars == <<prob, cfg, step, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
NoProb == [top |-> ""]

\* -------------------------------------------------- products of linear forms
\* a form: [g |-> group, c |-> coefficients of its variables, then the constant]
Dims == << <<1>>, <<2>>, <<1, 1>>, <<1, 1>>, <<2, 1>>, <<1, 1, 1>>, <<3>>, <<1, 2>> >>     \* of the groups
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
Nv(d) == SumSeq(d)
\* all choices of one factor per function
Picks(fs) == {h \in [1..Len(fs) -> 1..4] : \A j \in 1..Len(fs) : h[j] <= Len(fs[j])}
Rows(fs, h, g) == LET idx == SelectSeq([j \in 1..Len(fs) |-> j], LAMBDA j : fs[j][h[j]].g = g) IN [k \in 1..Len(idx) |-> fs[idx[k]][h[idx[k]]].c]
RECURSIVE Det(_)
Minor(M, c) == [i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |-> M[i + 1][IF j < c THEN j ELSE j + 1]]]
Det(M) == IF Len(M) = 0 THEN C1
          ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE LET T[c \in 0..Len(M)] == IF c = 0 THEN C0 ELSE Add(T[c - 1], Mul(IF c % 2 = 1 THEN M[1][c] ELSE Neg(M[1][c]), Det(Minor(M, c)))) IN T[Len(M)]
\* the solution of n equations in n+1 homogeneous unknowns: the minors, with the first one which is not zero scaled to 1
Cut(M, c) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> M[i][IF j < c THEN j ELSE j + 1]]]
Kernel(M) == LET n == Len(M) IN [c \in 1..(n + 1) |-> IF c % 2 = 1 THEN Det(Cut(M, c)) ELSE Neg(Det(Cut(M, c)))]
Scale(v) == IF \A i \in 1..Len(v) : v[i] = C0 THEN <<>>
            ELSE IF v[Len(v)] # C0 THEN [i \in 1..Len(v) |-> Div(v[i], v[Len(v)])]
            ELSE LET k == CHOOSE k \in 1..Len(v) : v[k] # C0 /\ \A j \in 1..(k - 1) : v[j] = C0 IN [i \in 1..Len(v) |-> Div(v[i], v[k])]
Fits(fs, d, h) == \A g \in 1..Len(d) : Len(Rows(fs, h, g)) = d[g]
Point(fs, d, h) == [g \in 1..Len(d) |-> Scale(Kernel(Rows(fs, h, g)))]
\* a choice which does not fit must have no solution: the forms of some group have none in common
SubDet(M, n) == \E S \in SUBSET (1..Len(M)) : Cardinality(S) = n /\ LET q == SetToSeq(S) IN Det([i \in 1..n |-> M[q[i]]]) \notin {C0, Undef}
Empty(fs, d, h) == \E g \in 1..Len(d) : Len(Rows(fs, h, g)) > d[g] /\ SubDet(Rows(fs, h, g), d[g] + 1)
GoodPoint(p) == \A g \in 1..Len(p) : p[g] # <<>> /\ \A i \in 1..Len(p[g]) : p[g][i] # Undef
Isolated(fs, d) == \A h \in Picks(fs) : IF Fits(fs, d, h) THEN GoodPoint(Point(fs, d, h)) ELSE Empty(fs, d, h)
Solutions(fs, d) == {Point(fs, d, h) : h \in {h \in Picks(fs) : Fits(fs, d, h)}}
Mult(fs, d, p) == Cardinality({h \in Picks(fs) : Fits(fs, d, h) /\ Point(fs, d, h) = p})
Finite(p) == \A g \in 1..Len(p) : p[g][Len(p[g])] = C1
NumPaths(fs, d) == Cardinality({h \in Picks(fs) : Fits(fs, d, h)})
\* the numbers of StartSpec
Bezout(fs) == LET T[j \in 0..Len(fs)] == IF j = 0 THEN 1 ELSE T[j - 1] * Len(fs[j]) IN T[Len(fs)]

Coefs == {Zi(1), Zi(1), Zi(-1), Zi(2), Zi(-2), Zi(3), CI, <<1, 1, 1>>}
RandForm(d, g) == [g |-> g, c |-> TLCEval([i \in 1..(d[g] + 1) |-> IF RandomElement(1..5) = 1 THEN C0 ELSE RandomElement(Coefs)])]
NonZero(f) == \E i \in 1..(Len(f.c) - 1) : f.c[i] # C0
RandFns(d, top) == LET n == Nv(d) IN
    [j \in 1..n |-> TLCEval([k \in 1..(IF n = 1 THEN RandomElement(1..4) ELSE IF n = 2 THEN RandomElement(1..3) ELSE RandomElement({1, 1, 2})) |->
        RandForm(d, IF top = "td" THEN 1 ELSE RandomElement(1..Len(d)))])]
\* factors are repeated now and then
Repeat(fs) == IF RandomElement(1..3) # 1 THEN fs ELSE
    IF Len(fs[Len(fs)]) < 2 THEN fs ELSE [fs EXCEPT ![Len(fs)][2] = fs[Len(fs)][1]]
Multiples(fs) == IF RandomElement(1..4) # 1 \/ Len(fs) < 2 THEN fs ELSE IF Len(fs[1]) < 2 \/ Len(fs[2]) < 2 THEN fs ELSE [fs EXCEPT ![1][2] = fs[2][1]]
F1(g, c) == [g |-> g, c |-> c]
Fixed == << [d |-> <<1>>, fs |-> << <<F1(1, <<C1, Zi(-1)>>), F1(1, <<C1, Zi(2)>>)>> >>],
            [d |-> <<1>>, fs |-> << <<F1(1, <<C1, Zi(-1)>>), F1(1, <<C1, Zi(-1)>>)>> >>],
            [d |-> <<2>>, fs |-> << <<F1(1, <<C1, C0, Zi(-1)>>), F1(1, <<C1, C1, Zi(-4)>>)>>, <<F1(1, <<C0, C1, Zi(-2)>>), F1(1, <<C1, Zi(-1), Zi(3)>>)>> >>],
            [d |-> <<2>>, fs |-> << <<F1(1, <<C1, C0, Zi(-1)>>), F1(1, <<C1, C1, Zi(-4)>>)>>, <<F1(1, <<C1, C0, Zi(-2)>>)>> >>] >>
MFixed == << [d |-> <<1, 1>>, fs |-> << <<F1(1, <<C1, Zi(-1)>>), F1(2, <<C1, Zi(2)>>)>>, <<F1(1, <<C1, C1>>), F1(2, <<C1, Zi(-3)>>)>> >>],
             [d |-> <<1, 1>>, fs |-> << <<F1(1, <<C1, Zi(-1)>>), F1(1, <<C1, Zi(2)>>)>>, <<F1(1, <<C1, C1>>), F1(2, <<C1, Zi(-3)>>), F1(2, <<C1, CI>>)>> >>] >>

Usable(fs, d) == /\ \A j \in 1..Len(fs) : \A k \in 1..Len(fs[j]) : NonZero(fs[j][k])
                 /\ Isolated(fs, d) /\ NumPaths(fs, d) \in 1..8
                 /\ \A g \in 1..Len(d) : \E j \in 1..Len(fs) : \E k \in 1..Len(fs[j]) : fs[j][k].g = g
                 \* how long an endgame takes at a multiple point at infinity is not bounded (ZeroMachine)
                 /\ \A p \in Solutions(fs, d) : Finite(p) \/ Mult(fs, d, p) = 1

\* ---------------------------------------------------------------- straight paths
\* a path: [x |-> <<place, off>> at the boundary, a |-> end, far |-> beyond the threshold]
Norm == <<1, 3, 2, 4>>
Offs == {0, 1, 15, 27}
Ends == {Zi(0), Zi(1), Zi(-1), Zi(2), CI, <<1, 1, 1>>, Q(1, 2), Zi(-3)}
RandPaths(z) == LET n == RandomElement(1..5) IN
    [i \in 1..n |-> [x |-> <<RandomElement(1..4), RandomElement(Offs)>>, a |-> RandomElement(Ends), far |-> RandomElement(1..8) = 1, dup |-> IF i > 1 /\ RandomElement(1..6) = 1 THEN RandomElement(1..(i - 1)) ELSE 0]]
\* a duplicate starts where another does, and is the same path
Undup(P) == [i \in 1..Len(P) |-> IF P[i].dup = 0 THEN [P[i] EXCEPT !.dup = i]
                                 ELSE LET j == P[i].dup IN IF P[j].dup # 0 THEN [P[i] EXCEPT !.dup = i] ELSE [P[j] EXCEPT !.dup = j]]
UClose(p, q) == ~p.far /\ ~q.far /\ p.x[1] = q.x[1] /\ Abs(p.x[2] - q.x[2]) < 10 * Norm[p.x[1]]
UCrossed(P) == {i \in 1..Len(P) : \E j \in 1..Len(P) : j # i /\ UClose(P[i], P[j])}
URerun(P) == {i \in 1..Len(P) : \E j \in 1..Len(P) : j # i /\ UClose(P[i], P[j]) /\ P[i].dup # P[j].dup}
\* two different paths are never in the same place, and do not meet on the way: where they are
\* apart in the same direction at the boundary and at the end they might
Base == << <<1, 0>>, <<-3, 0>>, <<0, 2>>, <<0, -4>> >>
At(p) == IF p.far THEN <<500 * Base[p.x[1]][1], 500 * Base[p.x[1]][2]>> ELSE Base[p.x[1]]
Apart(p, q) == IF At(p) = At(q) THEN (IF Base[p.x[1]][1] = 0 THEN <<1, 0>> ELSE <<0, 1>>)     \* the direction of off
               ELSE <<At(p)[1] - At(q)[1], At(p)[2] - At(q)[2]>>
Parallel(v, z) == v[1] * z[2] = v[2] * z[1]
UUsable(P) == \A i, j \in 1..Len(P) : P[i].dup # P[j].dup =>
    /\ <<P[i].x, P[i].far>> # <<P[j].x, P[j].far>> /\ P[i].a # P[j].a
    /\ ~Parallel(Apart(P[i], P[j]), Sub(P[i].a, P[j].a))

\* -------------------------------------------------------------------- behaviours
Tick == step' = step + 1
Log(r) == hist' = Append(hist, r)
Skip == Tick /\ UNCHANGED <<prob, cfg, hist>>

MkClone == \E top \in Pick(Tops \ {"user"}) :
    IF Sim THEN \E d \in {Dims[RandomElement(IF top = "td" THEN {1, 2, 2, 7} ELSE {3, 4, 5, 6, 8})]} :
                \E f0 \in {TLCEval(RandFns(d, top))} : \E f1 \in {TLCEval(Repeat(f0))} : \E fs \in {TLCEval(Multiples(f1))} :
                  IF ~Usable(fs, d) THEN Tick /\ UNCHANGED <<prob, cfg, hist>>
                  ELSE /\ prob' = [top |-> top, d |-> d, fs |-> fs] /\ UNCHANGED cfg /\ Tick
                       /\ Log([o |-> "clone", top |-> top, d |-> d, fs |-> fs, paths |-> NumPaths(fs, d),
                               sols |-> [i \in 1..Cardinality(Solutions(fs, d)) |-> LET p == SetToSeq(Solutions(fs, d))[i] IN [p |-> p, m |-> Mult(fs, d, p), fin |-> Finite(p)]]])
    ELSE \E q \in {(IF top = "td" THEN Fixed ELSE MFixed)[i] : i \in 1..Len(IF top = "td" THEN Fixed ELSE MFixed)} :
                  /\ prob' = [top |-> top, d |-> q.d, fs |-> q.fs] /\ UNCHANGED cfg /\ Tick
                  /\ Log([o |-> "clone", top |-> top, d |-> q.d, fs |-> q.fs, paths |-> NumPaths(q.fs, q.d),
                               sols |-> [i \in 1..Cardinality(Solutions(q.fs, q.d)) |-> LET p == SetToSeq(Solutions(q.fs, q.d))[i] IN [p |-> p, m |-> Mult(q.fs, q.d, p), fin |-> Finite(p)]]])
UFixed == << << [x |-> <<1, 0>>, a |-> Zi(0), far |-> FALSE, dup |-> 0] >>,
             << [x |-> <<1, 0>>, a |-> Zi(0), far |-> FALSE, dup |-> 0], [x |-> <<1, 1>>, a |-> Zi(2), far |-> FALSE, dup |-> 0], [x |-> <<2, 1>>, a |-> CI, far |-> FALSE, dup |-> 0] >>,
             << [x |-> <<1, 0>>, a |-> Zi(0), far |-> FALSE, dup |-> 0], [x |-> <<1, 1>>, a |-> Zi(2), far |-> FALSE, dup |-> 1] >>,
             << [x |-> <<3, 0>>, a |-> Zi(1), far |-> TRUE, dup |-> 0], [x |-> <<3, 1>>, a |-> Zi(2), far |-> FALSE, dup |-> 0] >> >>
MkUser == \E P0 \in (IF Sim THEN {TLCEval(RandPaths(step))} ELSE {UFixed[i] : i \in 1..Len(UFixed)}) : \E P \in {TLCEval(Undup(P0))} :
    IF ~UUsable(P) THEN Tick /\ UNCHANGED <<prob, cfg, hist>>
    ELSE /\ prob' = [top |-> "user", P |-> P] /\ Tick /\ UNCHANGED cfg
         /\ \E tol \in Pick(IF Sim THEN {3, 4} ELSE {3}) :
            Log([o |-> "user", P |-> P, tol |-> tol, crossed |-> [i \in 1..Len(P) |-> i \in UCrossed(P)], rerun |-> [i \in 1..Len(P) |-> i \in URerun(P)],
                 mult |-> [i \in 1..Len(P) |-> Cardinality({j \in 1..Len(P) : P[j].a = P[i].a /\ ~P[j].far})]])
MkProb == \E top \in Pick(Tops) : IF top = "user" THEN MkUser ELSE MkClone

Settings == [before : {4, 5, 6}, during : {6, 7}, egtol : {8, 9, 11}, resolve : {0, 1, 2, 3}, retrack : {1, 2}, step : {1, 2}, boundary : {0, 1, 2}, points : {2, 3, 4}, prec : {0, 1}, zsetup : BOOLEAN]
Default == [before |-> 5, during |-> 6, egtol |-> 11, resolve |-> 2, retrack |-> 1, step |-> 1, boundary |-> 0, points |-> 3, prec |-> 0, zsetup |-> FALSE]
RandSettings(z) == [before |-> RandomElement({4, 5, 6}), during |-> RandomElement({6, 7}), egtol |-> RandomElement({8, 9, 11}), resolve |-> RandomElement(0..3), retrack |-> RandomElement(1..2),
                 step |-> RandomElement({1, 1, 2}), boundary |-> RandomElement({0, 0, 1, 2}), points |-> RandomElement({3, 3, 4}), prec |-> RandomElement({0, 0, 1}), zsetup |-> RandomElement(1..6) = 1]
Make == \E k \in Pick(Kinds), f \in Pick(Flavours) : \E s \in (IF Sim THEN {TLCEval(RandSettings(step))} ELSE {Default, [Default EXCEPT !.resolve = 0]}) :
    /\ cfg' = [k |-> k, f |-> f, s |-> s, solved |-> 0] /\ Tick /\ UNCHANGED prob
    /\ Log([o |-> "make", k |-> k, f |-> f, s |-> s])
Again == \E s \in {TLCEval(RandSettings(step))} : 
    \* the boundary of a user homotopy stays: it is part of the problem
    LET s2 == [s EXCEPT !.boundary = cfg.s.boundary, !.prec = cfg.s.prec, !.zsetup = FALSE] IN
    /\ cfg' = [cfg EXCEPT !.s = s2, !.solved = 0] /\ Tick /\ UNCHANGED prob
    /\ Log([o |-> "set", s |-> s2])
Solve == /\ cfg' = [cfg EXCEPT !.solved = @ + 1] /\ Tick /\ UNCHANGED prob
         /\ Log([o |-> "solve", n |-> cfg.solved + 1])
NoCfg == [k |-> "", f |-> "", s |-> Default, solved |-> 0]
Init == prob = NoProb /\ cfg = NoCfg /\ step = 0 /\ hist = <<>>
Next == IF step >= MaxOps THEN FALSE
        ELSE IF prob.top = "" THEN MkProb
        ELSE IF cfg.k = "" THEN Make
        ELSE IF ~Sim \/ cfg.solved = 0 THEN Solve
        ELSE \E k \in {RandomElement(1..4)} : CASE k = 1 -> Solve [] k = 2 -> Again [] OTHER -> (cfg' = NoCfg /\ Tick /\ UNCHANGED <<prob, hist>>)
Spec == Init /\ [][Next]_vars

\* the choices are the paths: with one group as many as Bezout says; multiplicities add up to them
Counts == prob.top \in {"td", "mhom"} =>
    LET S == Solutions(prob.fs, prob.d)
        T[q \in SUBSET S] == IF q = {} THEN 0 ELSE LET p == CHOOSE p \in q : TRUE IN Mult(prob.fs, prob.d, p) + T[q \ {p}]
    IN T[S] = NumPaths(prob.fs, prob.d) /\ (prob.top = "td" => NumPaths(prob.fs, prob.d) = Bezout(prob.fs))
\* every finite solution solves every function
Val(f, x, d) == LET off == SumSeq(SubSeq(d, 1, f.g - 1))
                    T[i \in 0..d[f.g]] == IF i = 0 THEN f.c[d[f.g] + 1] ELSE Add(T[i - 1], Mul(f.c[i], x[f.g][i])) IN T[d[f.g]]
Solve0 == prob.top \in {"td", "mhom"} =>
    \A p \in {p \in Solutions(prob.fs, prob.d) : Finite(p)} : \A j \in 1..Len(prob.fs) : \E k \in 1..Len(prob.fs[j]) : Val(prob.fs[j][k], p, prob.d) \in {C0, Undef}
Emit == step >= MaxOps => PrintT("HIST " \o ToJson(hist))
=============================================================================
