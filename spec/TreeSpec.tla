------------------------------ MODULE TreeSpec ------------------------------
(* Every expression of a small grammar: each is built, observed as an expression (value,
   derivatives, degrees), observed as the function of a System (both evaluation methods, both
   differentiation methods, both number types), simplified, and observed again.  The meaning
   of everything is that of SysSpec.                                                        *)
EXTENDS SysSpec

CONSTANTS Depth,       \* number of operations applied one on top of the other
          Slice, Slices \* this run's share of the innermost operations

LeafNodes == VarPool \o << [Blank EXCEPT !.op = "rat", !.c = Q(2, 3)], [Blank EXCEPT !.op = "one"], [Blank EXCEPT !.op = "zero"] >>
LeafPick == {1, 2, 6, 7, 8}
LeafHist == [i \in 1..3 |-> LET n == LeafNodes[i + 5] IN [o |-> "node", id |-> i + 5, op |-> n.op, a |-> n.a, b |-> n.b, e |-> n.e, n |-> n.n, c |-> n.c, s |-> n.s]]
Bins == {"add", "sub", "mul", "div"}
ShapeSet(tops) ==    \* the operations whose first or second operand is in tops
    {[Blank EXCEPT !.op = op, !.a = p[1], !.b = p[2]] : op \in Bins, p \in (tops \X LeafPick) \cup (LeafPick \X tops) \cup {<<t, t>> : t \in tops}}
    \cup {[Blank EXCEPT !.op = op, !.a = t] : op \in {"neg", "fn"}, t \in tops}
    \cup {[Blank EXCEPT !.op = "ipow", !.a = t, !.n = n] : n \in {2, 3}, t \in tops}
    \cup {[Blank EXCEPT !.op = op, !.a = t, !.b = u, !.e = 2, !.s = sg] : op \in {"sum3", "prod3"}, sg \in {<<FALSE, TRUE, TRUE>>, <<FALSE, FALSE, TRUE>>}, t \in tops, u \in {1, 6}}
    \cup {[Blank EXCEPT !.op = "ipow", !.a = t, !.n = 0] : t \in tops \ LeafPick}

Key(nd) == (nd.a * 7 + nd.b * 11 + nd.n * 3 + (CASE nd.op = "add" -> 0 [] nd.op = "sub" -> 1 [] nd.op = "mul" -> 2 [] nd.op = "div" -> 3 [] OTHER -> 4)) % Slices

Pt(i) == [x \in {"x", "y"} |-> BfsPts[i][x]]
TreeSys == Fresh(0, <<G("aff", <<"x", "y">>)>>, FALSE)
SysObs(P, top, w, ty, i) ==
    LET V == {"x", "y"}
        D == Duals(P, [x \in V |-> VarV(Pt(i)[x], x, V)], <<>>)[top]
    IN [o |-> "obs", w |-> w, s |-> 1, ty |-> ty, noarg |-> FALSE, x |-> <<Pt(i)["x"], Pt(i)["y"]>>, t |-> <<>>, pat |-> 0,
        exp |-> IF w = "jac" THEN <<<<Der(D, "x"), Der(D, "y")>>>> ELSE <<Val(D)>>]
NObs(P, top, w, ty, i) ==
    LET V == {"x", "y"}
        D == Duals(P, [x \in V |-> VarV(Pt(i)[x], x, V)], <<>>)[top]
    IN [o |-> "nobs", n |-> top, ty |-> ty, w |-> w, vs |-> <<"x", "y">>, x |-> <<Pt(i)["x"], Pt(i)["y"]>>, val |-> Val(D), der |-> <<Der(D, "x"), Der(D, "y")>>]
DegObs(P, top, q) ==
    [o |-> "ndegs", n |-> top, vs |-> q, each |-> [i \in 1..Len(q) |-> Degs(P, {q[i]}, <<>>)[top]], all |-> Degs(P, Range(q), <<>>)[top], homg |-> -1]
M(k, v) == [o |-> "method", s |-> 1, m |-> <<k, v>>]

Bundle(P, top) ==
    << NObs(P, top, "val", "dbl", 1), DegObs(P, top, <<"x">>), DegObs(P, top, <<"x", "y">>),
       NObs(P, top, "dif", "mp", 2), NObs(P, top, "jac", "dbl", 1), NObs(P, top, "simp", "dbl", 1),
       [o |-> "new", s |-> 1, g |-> TreeSys.groups, path |-> FALSE], [o |-> "addfn", s |-> 1, n |-> top],
       SysObs(P, top, "eval", "mp", 1), SysObs(P, top, "jac", "dbl", 1), M("dv", "D"), SysObs(P, top, "jac", "mp", 2),
       M("ev", "SLP"), SysObs(P, top, "eval", "dbl", 2), SysObs(P, top, "jac", "mp", 1), M("dv", "J"), SysObs(P, top, "jac", "dbl", 2),
       [o |-> "act", s |-> 1, k |-> "simp"], SysObs(P, top, "eval", "dbl", 1), SysObs(P, top, "jac", "mp", 2), M("ev", "FT"), SysObs(P, top, "jac", "dbl", 1),
       NObs(P, top, "simpn", "dbl", 1), NObs(P, top, "val", "mp", 2), NObs(P, top, "dif", "dbl", 1) >>

TInit == /\ step = 0 /\ dead = FALSE /\ pat = 0 /\ fams = 0 /\ prec = 30
         /\ pool = LeafNodes
         /\ sys = [s \in Slots |-> NoSys]
         /\ hist = LeafHist
TNext == /\ step < Depth
         /\ \E nd0 \in ShapeSet(IF step = 0 THEN {1, 2, 6, 7, 8} ELSE {Len(pool)}) :
              LET nd == Grow(nd0)
                  P == Append(pool, nd)
                  h == Append(hist, [o |-> "node", id |-> Len(P), op |-> nd.op, a |-> nd.a, b |-> nd.b, e |-> nd.e, n |-> nd.n, c |-> nd.c, s |-> nd.s])
              IN /\ step = 0 => Key(nd0) = Slice
                 /\ nd.td <= 4
                 /\ pool' = P
                 /\ hist' = IF step + 1 = Depth THEN h \o Bundle(P, Len(P)) ELSE h
                 /\ Tick /\ UNCHANGED <<sys, prec, dead, pat, fams>>
TSpec == TInit /\ [][TNext]_vars
TEmit == (step = Depth /\ pool[Len(pool)].fv # {}) => PrintT("HIST " \o ToJson(hist))
=============================================================================
