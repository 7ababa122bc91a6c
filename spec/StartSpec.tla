----------------------------- MODULE StartSpec -----------------------------
(* Start systems: which targets a TotalDegree or MHomogeneous start system is made for, how many
   start points it has, and that the points are what a homotopy needs: distinct nonsingular
   solutions of the start system, on the target's patches, in the target's variables and of the
   target's degrees, at whatever precision is asked for; and that the straight line homotopy
   between target and start system joins one to the other.

   A target is a list of variable groups, a matrix of degrees (functions x groups), and its
   functions as lists of terms with these degrees.  The number of start points is stated by
   what it counts: the Bezout number is the product of the total degrees; the m-homogeneous
   Bezout number the sum over all assignments of the functions to the groups using each group as
   often as its dimension of the product of the degrees.                                        *)
EXTENDS GRat, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Sim,       \* TRUE: random targets and operations; FALSE: every target of the small family, one fixed observation of each
          MaxOps, MaxDeg

VARIABLES tgt, starts, prec, step, hist
vars == <<tgt, starts, prec, step, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Max2(a, b) == IF a > b THEN a ELSE b

G(k, q) == [kind |-> k, vs |-> q]
Good == << <<G("aff", <<"x">>)>>,
           <<G("aff", <<"x", "y">>)>>,
           <<G("aff", <<"x">>), G("aff", <<"y">>)>>,
           <<G("hom", <<"x", "y">>)>>,
           <<G("hom", <<"x", "y">>), G("aff", <<"z">>)>>,
           <<G("aff", <<"z">>), G("hom", <<"x", "y">>)>> >>
Bigger == << <<G("aff", <<"x", "y", "z">>)>>,
             <<G("aff", <<"x", "y">>), G("aff", <<"z">>)>>,
             <<G("aff", <<"z">>), G("aff", <<"y", "x">>)>>,
             <<G("aff", <<"z">>), G("aff", <<"y">>), G("aff", <<"x">>)>>,
             <<G("hom", <<"x", "y", "z">>)>>,
             <<G("hom", <<"x", "y">>), G("hom", <<"z", "w">>)>>,
             <<G("aff", <<"x">>), G("hom", <<"y", "z">>), G("aff", <<"w">>)>>,
             <<G("hom", <<"y", "z">>), G("aff", <<"x", "w">>)>>,
             <<G("aff", <<"x", "w">>), G("hom", <<"y", "z">>)>>,
             <<G("aff", <<"x", "y">>), G("aff", <<"z", "w">>)>>,
             <<G("aff", <<"x", "y">>), G("aff", <<"z", "w">>)>> >>
Odd == << <<G("ung", <<"x">>), G("aff", <<"y">>)>>,
          <<G("ung", <<"x">>), G("ung", <<"y">>)>>,
          <<G("aff", <<"x">>), G("ung", <<"y">>)>> >>
Structs == IF Sim THEN Good \o Bigger \o Bigger \o Odd ELSE Good \o Odd

Grouped(g) == SelectSeq(g, LAMBDA h : h.kind # "ung")
Dim(h) == IF h.kind = "hom" THEN Len(h.vs) - 1 ELSE Len(h.vs)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
RECURSIVE ProdSeq(_)
ProdSeq(q) == IF q = <<>> THEN 1 ELSE q[1] * ProdSeq(Tail(q))
Dims(g) == SumSeq([i \in 1..Len(g) |-> Dim(g[i])])
NatVars(g) == FlattenSeq([i \in 1..Len(g) |-> g[i].vs])

\* ------------------------------------------------------------ functions
\* term: [c |-> coefficient, e |-> variable -> exponent]; the exponents in group h sum to at most its degree, exactly in a homogeneous group.
\* k-th term, v: a variation.  Term 1 has the full degree everywhere.
Coef(j, k, v) == CASE (j + 2*k + v) % 5 = 0 -> Q(1, 2) [] (j + 2*k + v) % 5 = 1 -> Zi(2) [] (j + 2*k + v) % 5 = 2 -> Q(-2, 3)
                   [] (j + 2*k + v) % 5 = 3 -> Zi(3) [] OTHER -> <<1, 1, 2>>
\* exponents of group h with degree d in term k: put everything on one variable, or split over two
Expo(h, d, j, k, v) ==
    LET n == Len(h.vs)
        dd == IF k = 1 \/ h.kind = "hom" THEN d ELSE IF d = 0 THEN 0 ELSE (d + k + v) % (d + 1)
        a == ((j + k + v) % n) + 1
        b == ((j + 2*k) % n) + 1
        split == IF (k + v) % 2 = 0 /\ dd >= 2 /\ a # b THEN 1 ELSE 0
    IN [x \in {h.vs[i] : i \in 1..n} |-> IF x = h.vs[a] THEN dd - split ELSE IF x = h.vs[b] THEN split ELSE 0]
Term(g, D, j, k, v) ==
    [c |-> Coef(j, k, v),
     e |-> [x \in {NatVars(g)[i] : i \in 1..Len(NatVars(g))} |->
              LET i == CHOOSE i \in 1..Len(g) : x \in {g[i].vs[m] : m \in 1..Len(g[i].vs)}
              IN Expo(g[i], D[j][i], j, k, v)[x]]]
Terms(g, D, j, v, nt) ==
    LET T == [k \in 1..nt |-> Term(g, D, j, k, v)]
    IN SelectSeq([k \in 1..nt |-> IF \E m \in 1..(k-1) : T[m].e = T[k].e THEN <<>> ELSE T[k]], LAMBDA q : q # <<>>)

\* the degree of function j in group i, from its terms
TermDeg(t, h) == SumSeq([m \in 1..Len(h.vs) |-> t.e[h.vs[m]]])
FnDeg(f, h) == LET S == {TermDeg(f[k], h) : k \in 1..Len(f)} IN CHOOSE d \in S : \A q \in S : q <= d
TotDeg(f, g) == LET S == {SumSeq([i \in 1..Len(g) |-> TermDeg(f[k], g[i])]) : k \in 1..Len(f)} IN CHOOSE d \in S : \A q \in S : q <= d
DegMat(T) == [j \in 1..Len(T.fns) |-> [i \in 1..Len(Grouped(T.groups)) |-> FnDeg(T.fns[j], Grouped(T.groups)[i])]]

\* --------------------------------------------------------------- targets
\* how: "plain", "hom" (homogenized), "patch" (homogenized and patched)
NumHomVars(T) == IF T.how = "plain" THEN 0 ELSE Cardinality({i \in 1..Len(T.groups) : T.groups[i].kind = "aff"})
NumVars(T) == Len(NatVars(T.groups)) + NumHomVars(T)
NumFns(T) == Len(T.fns) + IF T.how = "patch" THEN Len(Grouped(T.groups)) ELSE 0
Poly(T) == ~T.nonpoly
Square(T) == NumFns(T) = NumVars(T)
Suitable(T) == Square(T) /\ ~T.path /\ Poly(T) /\ \A i \in 1..Len(T.groups) : T.groups[i].kind # "ung"
AcceptTD(T) == Suitable(T) /\ Len(T.fns) = Len(NatVars(T.groups)) /\ Len(T.groups) = 1 /\ T.groups[1].kind = "aff"
AcceptMH(T) == /\ Suitable(T)
               /\ LET M == DegMat(T) n == Len(T.groups)
                  IN /\ \A j \in 1..Len(M) : \E i \in 1..n : M[j][i] # 0
                     /\ \A i \in 1..n : \E j \in 1..Len(M) : M[j][i] # 0
NumTD(T) == ProdSeq([j \in 1..Len(T.fns) |-> TotDeg(T.fns[j], T.groups)])
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
NumMH(T) ==
    LET n == Len(T.fns)  m == Len(T.groups)  M == DegMat(T)
        P == {p \in [1..n -> 1..m] : \A i \in 1..m : Cardinality({j \in 1..n : p[j] = i}) = Dim(T.groups[i])}
        w == [p \in P |-> ProdSeq([j \in 1..n |-> M[j][p[j]]])]
    IN SumOver(P, w)
Accept(k, T) == IF k = "td" THEN AcceptTD(T) ELSE AcceptMH(T)
Num(k, T) == IF k = "td" THEN NumTD(T) ELSE NumMH(T)

\* the Bezout number bounds the m-homogeneous one, and they agree for one group
BoundOK == tgt # <<>> /\ AcceptTD(tgt) /\ AcceptMH(tgt) => NumMH(tgt) = NumTD(tgt)
Merged(T) == [T EXCEPT !.groups = <<G("aff", NatVars(T.groups))>>]
BezoutOK == (tgt # <<>> /\ AcceptMH(tgt) /\ \A i \in 1..Len(tgt.groups) : tgt.groups[i].kind = "aff") => NumMH(tgt) <= NumTD(Merged(tgt))

\* the value of function f of T at pt, homogenized where T is
HVarOf(T, i) == IF T.groups[i].kind = "aff" /\ T.how # "plain"
                THEN <<"h1", "h2", "h3">>[Cardinality({m \in 1..i : T.groups[m].kind = "aff"})] ELSE ""
Order(T) == FlattenSeq([i \in 1..Len(T.groups) |-> (IF HVarOf(T, i) # "" THEN <<HVarOf(T, i)>> ELSE <<>>) \o T.groups[i].vs])
RECURSIVE MulSeq(_)
MulSeq(q) == IF q = <<>> THEN C1 ELSE Mul(q[1], MulSeq(Tail(q)))
RECURSIVE AddSeq(_)
AddSeq(q) == IF q = <<>> THEN C0 ELSE Add(q[1], AddSeq(Tail(q)))
P0(a, n) == IF n = 0 THEN C1 ELSE PowI(a, n)
TermVal(T, f, t, pt) ==
    Mul(t.c, MulSeq([i \in 1..Len(T.groups) |->
        Mul(MulSeq([m \in 1..Len(T.groups[i].vs) |-> P0(pt[T.groups[i].vs[m]], t.e[T.groups[i].vs[m]])]),
            IF HVarOf(T, i) = "" THEN C1 ELSE P0(pt[HVarOf(T, i)], FnDeg(f, T.groups[i]) - TermDeg(t, T.groups[i])))]))
FnVal(T, j, pt) == AddSeq([k \in 1..Len(T.fns[j]) |-> TermVal(T, T.fns[j], T.fns[j][k], pt)])

Vals == {Q(1, 3), Q(-2, 7), Q(3, 2), Zi(2), Zi(-1), Q(1, 2), CI, <<1, 1, 1>>}
SomePt == [x |-> Q(1, 3), y |-> Q(-2, 7), z |-> Zi(2), w |-> CI, h1 |-> Q(3, 2), h2 |-> Zi(-1), h3 |-> Q(1, 2)]
PtPick(T) == IF Sim THEN {TLCEval([x \in {Order(T)[i] : i \in 1..Len(Order(T))} |-> RandomElement(Vals)])}
             ELSE {[x \in {Order(T)[i] : i \in 1..Len(Order(T))} |-> SomePt[x]]}
Coords(T, pt) == [i \in 1..Len(Order(T)) |-> pt[Order(T)[i]]]

\* ------------------------------------------------------------ behaviours
Log(r) == hist' = Append(hist, r)
Logs(q) == hist' = hist \o q
Tick == step' = step + 1
Skip == Tick /\ UNCHANGED <<tgt, starts, prec, hist>>

Hows(g) == IF \E i \in 1..Len(g) : g[i].kind = "ung" THEN {"plain"} ELSE {"plain", "hom", "patch"}
NFns(g) == LET d == Dims(g) IN IF Sim THEN {IF RandomElement(1..12) = 1 THEN d + 1 ELSE IF RandomElement(1..12) = 1 THEN Max2(1, d - 1) ELSE d} ELSE {d}
MkTarget ==
    /\ tgt = <<>>
    /\ \E si \in Pick(1..Len(Structs)) :
       LET g == Structs[si]
       IN \E n \in NFns(g), how \in (IF Sim THEN {IF RandomElement(1..3) > 1 /\ "patch" \in Hows(g) THEN "patch" ELSE RandomElement(Hows(g))} ELSE Hows(g)),
             v \in Pick(IF Sim THEN 0..9 ELSE {0}), nt \in Pick(IF Sim THEN {1, 2, 3} ELSE {2}),
             path \in (IF Sim THEN {RandomElement(1..15) = 1} ELSE {FALSE}), np \in (IF Sim THEN {RandomElement(1..15) = 1} ELSE {FALSE}) :
          \E D \in (IF Sim THEN {TLCEval([j \in 1..n |-> [i \in 1..Len(g) |-> RandomElement(0..MaxDeg)]])}
                    ELSE [1..n -> [1..Len(g) -> 0..MaxDeg]]) :
            LET T == [groups |-> g, how |-> how, path |-> path, nonpoly |-> np /\ how = "plain",
                      fns |-> [j \in 1..n |-> Terms(g, D, j, v, nt)]]
            IN /\ tgt' = T
               /\ Log([o |-> "target", g |-> g, how |-> how, path |-> path, nonpoly |-> T.nonpoly, fns |-> T.fns, order |-> Order(T)])
               /\ Tick /\ UNCHANGED <<starts, prec>>

\* a start system of kind k, and whether there is one
MakeRec(id, k) == [o |-> "make", id |-> id, k |-> k, ok |-> Accept(k, tgt), num |-> IF Accept(k, tgt) THEN Num(k, tgt) ELSE 0]
MakeAct(k) ==
    /\ Log(MakeRec(Len(starts) + 1, k))
    /\ starts' = IF Accept(k, tgt) THEN Append(starts, k) ELSE starts
    /\ Tick /\ UNCHANGED <<tgt, prec>>
DegsRec(id) == [o |-> "degs", id |-> id, m |-> DegMat(tgt), order |-> Order(tgt), gs |-> [i \in 1..Len(tgt.groups) |-> tgt.groups[i].vs]]
TotDegs(T) == LET S == {TotDeg(T.fns[j], T.groups) : j \in 1..Len(T.fns)} IN CHOOSE d \in S : \A q \in S : q <= d
PtRec(id, i, ty) == [o |-> "pt", id |-> id, i |-> i, ty |-> ty, ok |-> i < Num(starts[id], tgt), deg |-> TotDegs(tgt)]
HomRec(id, i, ty, pt, tm) == [o |-> "homotopy", id |-> id, i |-> i, ty |-> ty, x |-> Coords(tgt, pt), t |-> tm,
                              f |-> [j \in 1..Len(tgt.fns) |-> FnVal(tgt, j, pt)], deg |-> TotDegs(tgt)]
UserRec(ty, i, p, q) == [o |-> "user", ty |-> ty, pts |-> <<Coords(tgt, p), Coords(tgt, q)>>, i |-> i]

Make == \E k \in Pick({"td", "mh"}) : IF Len(starts) >= 3 THEN Skip ELSE MakeAct(k)
SomeStart(A(_)) == IF starts = <<>> THEN Skip ELSE \E id \in Pick(1..Len(starts)) : A(id)
Degrees == LET A(id) == Log(DegsRec(id)) /\ Tick /\ UNCHANGED <<tgt, starts, prec>> IN SomeStart(A)
Point == LET A(id) == \E ty \in Pick({"dbl", "mp"}), i \in Pick(0..Num(starts[id], tgt)) :
                        Log(PtRec(id, i, ty)) /\ Tick /\ UNCHANGED <<tgt, starts, prec>>
         IN SomeStart(A)
AllPoints == LET A(id) == \E ty \in Pick({"dbl", "mp"}) :
                        /\ Num(starts[id], tgt) <= 30
                        /\ Logs([i \in 1..(Num(starts[id], tgt) + 1) |-> PtRec(id, i - 1, ty)])
                        /\ Tick /\ UNCHANGED <<tgt, starts, prec>>
             IN IF starts # <<>> /\ \A id \in 1..Len(starts) : Num(starts[id], tgt) <= 30 THEN SomeStart(A) ELSE Skip
Homotopy == LET A(id) == \E ty \in Pick({"dbl", "mp"}), pt \in PtPick(tgt), tm \in Pick({C0, C1, Q(1, 2), <<1, 1, 3>>}) :
                        IF Num(starts[id], tgt) = 0 THEN Skip
                        ELSE \E i \in Pick(0..(Num(starts[id], tgt) - 1)) :
                             Log(HomRec(id, i, ty, pt, tm)) /\ Tick /\ UNCHANGED <<tgt, starts, prec>>
            IN SomeStart(A)
Method == LET A(id) == \E m \in Pick({<<"ev", "SLP">>, <<"ev", "FT">>, <<"dv", "J">>, <<"dv", "D">>}) :
                        Log([o |-> "method", id |-> id, m |-> m]) /\ Tick /\ UNCHANGED <<tgt, starts, prec>>
          IN SomeStart(A)
Copy == LET A(id) == \E k \in Pick({"copy", "ser"}) :
                        IF Len(starts) >= 4 \/ (k = "ser" /\ starts[id] # "td") THEN Skip
                        ELSE /\ Log([o |-> "copy", id |-> id, new |-> Len(starts) + 1, k |-> k])
                             /\ starts' = Append(starts, starts[id])
                             /\ Tick /\ UNCHANGED <<tgt, prec>>
        IN SomeStart(A)
Precision == \E p \in Pick({20, 30, 50, 80}) : prec' = p /\ Log([o |-> "prec", p |-> p]) /\ Tick /\ UNCHANGED <<tgt, starts>>
User == \E ty \in Pick({"dbl", "mp"}), i \in Pick(0..2), p \in PtPick(tgt), q \in PtPick(tgt) :
           Log(UserRec(ty, i, p, q)) /\ Tick /\ UNCHANGED <<tgt, starts, prec>>

\* BFS: everything about one kind of start system of one target
Full == \E k \in {"td", "mh"} :
          LET N == Num(k, tgt)
              S == <<k>>
              R(i, ty) == [o |-> "pt", id |-> 1, i |-> i, ty |-> ty, ok |-> i < N, deg |-> TotDegs(tgt)]
          IN /\ starts = <<>>
             /\ step' = MaxOps
             /\ UNCHANGED <<tgt, starts, prec>>
             /\ IF ~Accept(k, tgt) THEN Log(MakeRec(1, k))
                ELSE \E pt \in PtPick(tgt) :
                     Logs(<<MakeRec(1, k), DegsRec(1)>> \o [i \in 1..(N + 1) |-> R(i - 1, "dbl")]
                          \o <<[o |-> "prec", p |-> 50]>> \o [i \in 1..N |-> R(i - 1, "mp")]
                          \o IF N > 0 THEN <<HomRec(1, N - 1, "mp", pt, Q(1, 2))>> ELSE <<>>)

Finished == step >= MaxOps
Init == tgt = <<>> /\ starts = <<>> /\ prec = 30 /\ step = 0 /\ hist = <<>>
Next == IF Finished THEN FALSE
        ELSE IF tgt = <<>> THEN MkTarget
        ELSE IF ~Sim THEN Full
        ELSE IF starts = <<>> /\ RandomElement(1..2) = 1 THEN Make
        ELSE \E k \in {RandomElement(1..16)} :
             CASE k \in {1, 2} -> Make [] k \in {3, 4} -> AllPoints [] k = 5 -> Degrees [] k \in {6, 7, 8} -> Point
               [] k \in {9, 10, 11} -> Homotopy [] k \in {12, 13} -> Method [] k = 14 -> Copy [] k = 15 -> Precision [] OTHER -> User
Spec == Init /\ [][Next]_vars
Emit == Finished => PrintT("HIST " \o ToJson(hist))
=============================================================================
