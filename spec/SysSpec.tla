------------------------------ MODULE SysSpec ------------------------------
(* Polynomial systems of Bertini 2: how the values, derivatives, degrees and variables of a
   System are determined by the functions put into it, whatever has been done to it since.

   State: a pool of expression nodes (sub-expressions are shared by position), up to three
   Systems, the working precision.  A System is a list of functions (pool positions), a list
   of variable groups, a path variable or none, an evaluation and a differentiation method,
   whether it is homogenized and patched.  Systems of one family share expression nodes and
   variables (copies, sums, products); a clone or a reloaded archive starts a new family.

   What an observation must give is a function of that abstract state and of the point only:
   caches, straight line programs, derivative trees, precisions and the history are absent
   from it.  Each behaviour carries, in hist, the operations with the observations they must
   give; the driver performs them on the real code.                                        *)
EXTENDS Expr, Json, SequencesExt

CONSTANTS Sim,        \* TRUE: random behaviours (-simulate); FALSE: every behaviour up to MaxOps
          Profile,    \* which operations are frequent
          MaxOps,
          Shard,      \* BFS: which share of the behaviours to produce
          Shards

VARIABLES pool, sys, prec, dead, pat, step, hist, fams
vars == <<pool, sys, prec, dead, pat, step, hist, fams>>
\* dead: the pool's real nodes were changed by a homogenization
\* pat : number of patches made so far

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
WPick(q) == IF Sim THEN {q[RandomElement(1..Len(q))]} ELSE {q[i] : i \in 1..Len(q)}

SpaceVars == {"x", "y", "z", "w"}
HomVars == <<"h1", "h2", "h3">>
PathVar == "t"

\* ------------------------------------------------------------------ nodes
Blank == [op |-> "", a |-> 1, b |-> 1, e |-> 1, n |-> 0, c |-> C0, x |-> "", s |-> <<TRUE, TRUE, TRUE>>,
          fv |-> {}, sz |-> 1, td |-> 0, real |-> TRUE]
VarNode(x) == [Blank EXCEPT !.op = "var", !.x = x, !.fv = {x}, !.td = 1]
VarPool == <<VarNode("x"), VarNode("y"), VarNode("z"), VarNode("w"), VarNode("t")>>

Max3(a, b, c) == Max2(a, Max2(b, c))
Grow(nd) ==      \* fill in free variables, size, weight
    LET A == pool[nd.a]  B == pool[nd.b]  E == pool[nd.e]
    IN CASE nd.op \in Leaves -> nd
         [] nd.op \in Binary ->
              [nd EXCEPT !.fv = A.fv \cup B.fv, !.sz = A.sz + B.sz + 1,
                         !.td = IF nd.op \in {"add", "sub", "addeq", "subeq"} THEN Max2(A.td, B.td) ELSE A.td + B.td]
         [] nd.op \in {"sum3", "prod3"} ->
              [nd EXCEPT !.fv = A.fv \cup B.fv \cup E.fv, !.sz = A.sz + B.sz + E.sz + 1,
                         !.td = IF nd.op = "sum3" THEN Max3(A.td, B.td, E.td) ELSE A.td + B.td + E.td]
         [] nd.op \in {"ipow", "cpow"} -> [nd EXCEPT !.fv = A.fv, !.sz = A.sz + 1, !.td = Max2(1, Abs(nd.n)) * A.td]
         [] OTHER -> [nd EXCEPT !.fv = A.fv, !.sz = A.sz + 1, !.td = A.td]

PolyOps == <<"add", "add", "add", "sub", "sub", "mul", "mul", "mul", "addi", "subi", "isub", "muli", "imul", "divi",
             "addq", "qsub", "mulq", "divq", "ipow", "ipow", "ipow", "cpow", "sum3", "sum3", "prod3", "neg", "neg", "fn", "fn",
             "addeq", "muleq", "subeq", "iadd", "qmul", "qadd", "subq",
             "int", "rat", "rat", "i", "flt", "one", "two">>
AllOps == PolyOps \o <<"div", "div", "idiv", "qdiv", "diveq", "zero", "sqrt", "sin0", "tan0", "asin0", "atan0",
             "cos0", "exp0", "log1", "pyth", "explog", "logexp", "sqrtsq", "powhalfsq", "sinasin", "cosacos", "tanatan",
             "tancos", "expinv", "logpow", "sinpi6", "cospi", "loge", "expe">>
HomOps == <<"add", "add", "sub", "mul", "mul", "ipow", "sum3", "muli", "fn", "neg", "mulq", "addi", "prod3">>
NodeOps == CASE Profile \in {"hom", "arith"} -> PolyOps
             [] Profile = "deg" -> PolyOps \o <<"prod3", "prod3", "sum3", "div", "idiv", "qdiv", "diveq", "sqrt", "explog", "logpow">>
             [] OTHER -> AllOps

IntVals == {-2, 2, 3, 4}
PowVals == {2, 3, 2, 1, 0, -1}
RatVals == {Q(1, 3), Q(-2, 7), <<1, 2, 3>>, Q(3, 2), <<2, -1, 5>>}
FltVals == {Q(1, 2), Q(-3, 4), <<1, -1, 2>>, Q(5, 4)}

RealNodes == {i \in 1..Len(pool) : pool[i].real}

\* ---------------------------------------------------------------- systems
G(k, q) == [kind |-> k, vs |-> q]
Structures == << <<G("aff", <<"x", "y">>)>>,
                 <<G("aff", <<"x", "y", "z">>)>>,
                 <<G("aff", <<"x">>), G("aff", <<"y", "z">>)>>,
                 <<G("hom", <<"x", "y">>)>>,
                 <<G("ung", <<"x">>), G("aff", <<"y", "z">>)>>,
                 <<G("aff", <<"x">>), G("hom", <<"y", "z">>), G("aff", <<"w">>)>>,
                 <<G("hom", <<"x", "y">>), G("ung", <<"z">>)>>,
                 <<G("ung", <<"x">>), G("ung", <<"y">>)>>,
                 <<G("aff", <<"y", "x">>), G("aff", <<"z", "w">>)>>,
                 <<G("aff", <<"z">>), G("aff", <<"x">>), G("aff", <<"y">>)>> >>
HomStructures == SelectSeq(Structures, LAMBDA g : \A i \in 1..Len(g) : g[i].kind # "ung")
StructsOf == IF Profile = "hom" THEN HomStructures ELSE Structures

Slots == {1, 2, 3}
NoSys == [live |-> FALSE]
Live == {s \in Slots : sys[s].live}
Free == {s \in Slots : ~sys[s].live}
Fresh(fam, groups, path) ==
    [live |-> TRUE, fam |-> fam, fns |-> <<>>, groups |-> groups, path |-> path, ev |-> "FT", dv |-> "J",
     hom |-> FALSE, pat |-> 0, cur |-> [dbl |-> <<>>, mp |-> <<>>]]

SVars(s) == UNION {Range(s.groups[i].vs) : i \in 1..Len(s.groups)}
AffIdx(s) == SelectSeq([i \in 1..Len(s.groups) |-> i], LAMBDA i : s.groups[i].kind = "aff")
\* the homogenizing variable of group i: they are numbered by affine group
HVar(s, i) == HomVars[Cardinality({j \in 1..i : s.groups[j].kind = "aff"})]
\* the documented variable order: groups first in, first out, each affine group preceded by its homogenizing variable
GOrder(s, i) == IF s.hom /\ s.groups[i].kind = "aff" THEN <<HVar(s, i)>> \o s.groups[i].vs ELSE s.groups[i].vs
RECURSIVE OrderFrom(_, _)
OrderFrom(s, i) == IF i > Len(s.groups) THEN <<>> ELSE GOrder(s, i) \o OrderFrom(s, i + 1)
Order(s) == OrderFrom(s, 1)
NatOrder(s) == Order([s EXCEPT !.hom = FALSE])
Patchable(s) == SelectSeq([i \in 1..Len(s.groups) |-> i], LAMBDA i : s.groups[i].kind # "ung")

HomOf(s, x) == \* the homogenizing variable that divides x, or ""
    IF ~s.hom THEN ""
    ELSE LET I == {i \in 1..Len(s.groups) : s.groups[i].kind = "aff" /\ x \in Range(s.groups[i].vs)}
         IN IF I = {} THEN "" ELSE HVar(s, CHOOSE i \in I : TRUE)

DVars(s) == Range(Order(s)) \cup (IF s.path THEN {PathVar} ELSE {})

\* the values and derivatives of all pool nodes, as seen by system s at point pt
Env(s, pt) == LET V == DVars(s)
                  one(x) == VarV(pt[x], x, V)
              IN [x \in V |-> IF HomOf(s, x) = "" THEN one(x) ELSE DDiv(one(x), one(HomOf(s, x)))]
GroupDeg(s, i, f) == Degs(pool, Range(s.groups[i].vs), <<>>)[f]
RECURSIVE HomFactor(_, _, _, _)
HomFactor(s, f, pt, i) ==
    IF i > Len(s.groups) THEN ConstV(C1, DVars(s))
    ELSE LET rest == HomFactor(s, f, pt, i + 1)
         IN IF s.groups[i].kind # "aff" THEN rest
            ELSE LET d == GroupDeg(s, i, f)
                 IN IF d = 0 THEN rest
                    ELSE DMul(DPowI(VarV(pt[HVar(s, i)], HVar(s, i), DVars(s)), d), rest)
\* the duals of the functions of s at pt
FnDuals(s, pt) ==
    LET D == Duals(pool, Env(s, pt), <<>>)
    IN [j \in 1..Len(s.fns) |-> IF s.hom THEN DMul(D[s.fns[j]], HomFactor(s, s.fns[j], pt, 1)) ELSE D[s.fns[j]]]

Val(D) == IF D = NoDual THEN Undef ELSE D.v
Der(D, x) == IF D = NoDual THEN Undef ELSE D.d[x]

Vals == {Q(1, 3), Q(-2, 7), Q(3, 2), Zi(2), Zi(-1), Q(1, 2), CI, <<1, 1, 1>>, <<1, -2, 3>>, C0, C1, Q(5, 4), Q(-1, 3), <<1, 1, 2>>}
NiceVals == {Q(1, 3), Q(-2, 7), Q(3, 2), Zi(2), Zi(-1), Q(1, 2), CI, <<1, 1, 1>>, <<1, -2, 3>>}
BfsPts == << [x |-> Q(1, 3), y |-> Q(-2, 7), z |-> Zi(2), w |-> CI, t |-> Q(1, 2), h1 |-> Q(3, 2), h2 |-> Zi(-1), h3 |-> Zi(2)],
             [x |-> <<1, 1, 2>>, y |-> Q(3, 2), z |-> Q(-1, 3), w |-> Q(5, 4), t |-> Q(2, 3), h1 |-> CI, h2 |-> Q(1, 2), h3 |-> Zi(-1)] >>
PtPick(s) == IF Sim THEN {TLCEval([x \in DVars(s) |-> IF x \in Range(HomVars) THEN RandomElement(NiceVals) ELSE RandomElement(Vals)])}
             ELSE {[x \in DVars(s) |-> BfsPts[i][x]] : i \in 1..2}
Coords(s, pt) == [i \in 1..Len(Order(s)) |-> pt[Order(s)[i]]]

\* ------------------------------------------------------------- history
Log(r) == hist' = Append(hist, r)
Tick == step' = step + 1
Skip == Tick /\ UNCHANGED <<pool, sys, prec, dead, pat, hist, fams>>

MkNode ==
    \E op \in WPick(NodeOps), a \in Pick(RealNodes), b \in Pick(RealNodes), e \in Pick(RealNodes),
       n \in Pick(IntVals), p \in Pick(PowVals), c \in Pick(RatVals), f \in Pick(FltVals), sg \in Pick(1..8) :
      LET nd == Grow([Blank EXCEPT !.op = op, !.a = a, !.b = b, !.e = e,
                        !.n = IF op = "ipow" THEN (IF p < 0 /\ Profile = "hom" THEN 2 ELSE p)
                              ELSE IF op = "cpow" THEN (IF Profile = "deg" /\ p < 0 THEN -2 ELSE Max2(Abs(n), 2)) ELSE n,
                        !.c = IF op = "flt" THEN f ELSE c,
                        !.s = <<sg % 2 = 1, (sg \div 2) % 2 = 1, sg > 4>>])
          nd2 == IF op = "prod3" /\ (Profile = "hom" \/ (Profile = "deg" /\ n > 2)) THEN [nd EXCEPT !.s = <<TRUE, TRUE, TRUE>>] ELSE nd
      IN IF ~dead /\ nd2.sz <= 14 /\ nd2.td <= 4 /\ Len(pool) < 24
         THEN /\ pool' = Append(pool, nd2)
              /\ Log([o |-> "node", id |-> Len(pool) + 1, op |-> op, a |-> a, b |-> b, e |-> e, n |-> nd2.n, c |-> nd2.c, s |-> nd2.s])
              /\ Tick /\ UNCHANGED <<sys, prec, dead, pat, fams>>
         ELSE Skip

NewSys ==
    \E g \in WPick(StructsOf), p \in Pick({TRUE, FALSE}) :
      IF Free # {} /\ ~dead
      THEN \E s \in Pick(Free) :
            /\ sys' = [sys EXCEPT ![s] = Fresh(0, g, p)]
            /\ Log([o |-> "new", s |-> s, g |-> g, path |-> p])
            /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>
      ELSE Skip

Fits(s, n) == pool[n].fv \subseteq (SVars(s) \cup IF s.path THEN {PathVar} ELSE {})
NoCur(s) == [s EXCEPT !.cur = [dbl |-> <<>>, mp |-> <<>>]]
\* the values stored in the variables of family f are no longer those of any of its systems
Disturb(S, f) == [k \in Slots |-> IF S[k].live /\ S[k].fam = f THEN NoCur(S[k]) ELSE S[k]]
\* as an addition to a sum of given degrees etc. it must be a genuine function of the variables
AddFn ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live) :
      LET C == {n \in RealNodes : Fits(sys[s], n) /\ pool[n].op \notin {"var"} /\ pool[n].fv # {}}
          C2 == IF C = {} THEN {n \in RealNodes : Fits(sys[s], n) /\ pool[n].fv # {}} ELSE C
      IN IF dead \/ sys[s].fam # 0 \/ sys[s].hom \/ sys[s].pat # 0 \/ Len(sys[s].fns) >= 4 \/ C2 = {} THEN Skip
         ELSE \E n \in Pick(C2) :
            /\ sys' = [sys EXCEPT ![s] = NoCur([@ EXCEPT !.fns = Append(@, n)])]
            /\ Log([o |-> "addfn", s |-> s, n |-> n])
            /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

AddSub ==    \* subfunctions, constants and parameters are bookkeeping only
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), k \in Pick({"ssub", "sconst", "sparam"}) :
      LET C == {n \in RealNodes : pool[n].op = "fn" /\ Fits(sys[s], n) /\ (k = "ssub" \/ pool[n].fv = {})}
      IN IF dead \/ sys[s].fam # 0 \/ C = {} THEN Skip
         ELSE \E n \in Pick(C) :
            /\ sys' = [sys EXCEPT ![s] = NoCur(@)]
            /\ Log([o |-> "addsub", s |-> s, n |-> n, k |-> k])
            /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

AddVar ==    \* a path variable, or a further variable, for a system that has already been used
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), k \in Pick({"path", "ung", "aff"}) :
      IF dead \/ sys[s].fam # 0 \/ sys[s].hom \/ sys[s].pat # 0 THEN Skip
      ELSE IF k = "path" /\ ~sys[s].path
      THEN /\ sys' = [sys EXCEPT ![s] = NoCur([@ EXCEPT !.path = TRUE])]
           /\ Log([o |-> "addpath", s |-> s])
           /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>
      ELSE IF k # "path" /\ "w" \notin SVars(sys[s]) /\ Cardinality({i \in 1..Len(sys[s].groups) : sys[s].groups[i].kind = "aff"}) < 3
      THEN /\ sys' = [sys EXCEPT ![s] = NoCur([@ EXCEPT !.groups = Append(@, G(k, <<"w">>))])]
           /\ Log([o |-> "addvar", s |-> s, k |-> k, x |-> "w"])
           /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>
      ELSE Skip

Method ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), m \in Pick({<<"ev", "SLP">>, <<"ev", "FT">>, <<"dv", "J">>, <<"dv", "D">>}) :
      /\ sys' = [sys EXCEPT ![s] = NoCur(IF m[1] = "ev" THEN [@ EXCEPT !.ev = m[2]] ELSE [@ EXCEPT !.dv = m[2]])]
      /\ Log([o |-> "method", s |-> s, m |-> m])
      /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

Act ==      \* operations which must not change what the system is
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), k \in WPick(<<"diff", "simp", "simp", "auto0", "auto1", "reset">>) :
      IF Len(sys[s].fns) = 0 THEN Skip
      ELSE /\ sys' = IF k \in {"simp", "diff", "auto0", "auto1"} THEN Disturb(sys, sys[s].fam) ELSE sys
           /\ Log([o |-> "act", s |-> s, k |-> k])
           /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

\* what a system must give at pt
Expect(s, what, pt) ==
    LET D == FnDuals(s, pt)
        o == Order(s)
    IN CASE what \in {"eval", "evalip"} -> [j \in 1..Len(s.fns) |-> Val(D[j])]
         [] what = "jac" -> [j \in 1..Len(s.fns) |-> [k \in 1..Len(o) |-> Der(D[j], o[k])]]
         [] what = "td" -> [j \in 1..Len(s.fns) |-> Der(D[j], PathVar)]

SetCur(S, s, ty, pt) ==
    LET T == [k \in Slots |-> IF k # s /\ S[k].live /\ S[k].fam = S[s].fam THEN [S[k] EXCEPT !.cur[ty] = <<>>] ELSE S[k]]
    IN [T EXCEPT ![s].cur[ty] = pt]

Observe(whats) ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), ty \in WPick(<<"dbl", "mp">>), what \in WPick(whats), re \in Pick({1, 2, 3}) :
      LET S == sys[s]
          w == IF what = "td" /\ ~S.path THEN "jac" ELSE what
          again == re = 1 /\ S.cur[ty] # <<>>
      IN IF Len(S.fns) = 0 \/ (~Sim /\ re = 3) \/ (~Sim /\ re = 1 /\ S.cur[ty] = <<>>) THEN Skip
         ELSE \E pt \in IF again THEN {S.cur[ty]} ELSE PtPick(S) :
           /\ sys' = SetCur(sys, s, ty, pt)
           /\ Log([o |-> "obs", w |-> w, s |-> s, ty |-> ty, noarg |-> again, x |-> Coords(S, pt),
                   t |-> IF S.path THEN pt[PathVar] ELSE <<>>, exp |-> Expect(S, w, pt), pat |-> S.pat])
           /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

SetPt ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), ty \in Pick({"dbl", "mp"}), k \in Pick({"set", "setr"}) :
      IF Len(sys[s].fns) = 0 THEN Skip
      ELSE \E pt \in PtPick(sys[s]) :
        /\ sys' = SetCur(sys, s, ty, pt)
        /\ Log([o |-> "set", k |-> k, s |-> s, ty |-> ty, x |-> Coords(sys[s], pt), t |-> IF sys[s].path THEN pt[PathVar] ELSE <<>>])
        /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

Bad ==      \* calls which must be refused
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), ty \in Pick({"dbl", "mp"}), what \in Pick({"eval", "evalip", "jac"}), k \in Pick({"time", "size"}) :
      IF Len(sys[s].fns) = 0 THEN Skip
      ELSE \E pt \in PtPick(sys[s]) :
        /\ sys' = Disturb(sys, sys[s].fam)
        /\ Log([o |-> "bad", k |-> k, s |-> s, ty |-> ty, w |-> what, x |-> Coords(sys[s], pt), path |-> sys[s].path])
        /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

Precision ==
    \E p \in Pick({30, 40, 50, 70, 100}) :
      /\ prec' = p
      /\ sys' = [k \in Slots |-> IF sys[k].live THEN [sys[k] EXCEPT !.cur.mp = <<>>] ELSE sys[k]]
      /\ Log([o |-> "prec", p |-> p])
      /\ Tick /\ UNCHANGED <<pool, dead, pat, fams>>

Copy ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), k \in WPick(<<"scopy", "scopy", "sassign", "smove", "smoveassign", "sswap", "sclone", "sclone", "sser">>),
            d \in Pick(Slots) :
      IF d = s \/ (k \in {"sassign", "smoveassign", "sswap"} /\ ~sys[d].live) \/ (k \in {"scopy", "smove", "sclone", "sser"} /\ sys[d].live)
      THEN Skip
      ELSE LET indep == k \in {"sclone", "sser"}
               new == IF indep THEN NoCur([sys[s] EXCEPT !.fam = fams + 1]) ELSE sys[s]
           IN /\ sys' = CASE k = "sswap" -> [sys EXCEPT ![s] = sys[d], ![d] = sys[s]]
                          [] k \in {"smove", "smoveassign"} -> [sys EXCEPT ![s] = NoSys, ![d] = new]
                          [] OTHER -> [sys EXCEPT ![d] = new]
              /\ fams' = IF indep THEN fams + 1 ELSE fams
              /\ Log([o |-> "copy", k |-> k, s |-> s, d |-> d])
              /\ Tick /\ UNCHANGED <<pool, prec, dead, pat>>

Drop ==
    IF Cardinality(Live) < 2 THEN Skip
    ELSE \E s \in Pick(Live) :
         /\ sys' = [sys EXCEPT ![s] = NoSys]
         /\ Log([o |-> "drop", s |-> s])
         /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

\* ghost nodes: functions the real code makes internally
Ghost(nd) == [nd EXCEPT !.real = FALSE]
GhostBin(op, a, b) == Ghost([Blank EXCEPT !.op = op, !.a = a, !.b = b, !.fv = pool[a].fv \cup pool[b].fv,
                                          !.td = IF op = "add" THEN Max2(pool[a].td, pool[b].td) ELSE pool[a].td + pool[b].td])
SameDegs(S, R) == \A j \in 1..Len(S.fns), i \in 1..Len(S.groups) :
                     S.groups[i].kind # "aff" \/ GroupDeg(S, i, S.fns[j]) = GroupDeg(S, i, R.fns[j])
\* s + r or s += r : the same number of functions of the same variables
Plus ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), r \in Pick(Live), d \in Pick(Slots), inplace \in Pick({TRUE, FALSE}) :
      LET S == sys[s]  R == sys[r]
      IN IF S.fam # R.fam \/ S.groups # R.groups \/ S.hom # R.hom \/ Len(S.fns) # Len(R.fns) \/ Len(S.fns) = 0
            \/ (S.path # R.path) \/ (S.pat # 0 /\ R.pat # 0 /\ S.pat # R.pat)
            \/ (~inplace /\ sys[d].live) \/ Len(pool) > 22
            \/ (\E j \in 1..Len(S.fns) : pool[S.fns[j]].td > 4 \/ pool[R.fns[j]].td > 4)
            \/ (S.hom /\ ~SameDegs(S, R))
         THEN Skip
         ELSE LET new == [j \in 1..Len(S.fns) |-> GhostBin("add", R.fns[j], S.fns[j])]
                  F == [j \in 1..Len(S.fns) |-> Len(pool) + j]
                  N == NoCur([S EXCEPT !.fns = F, !.pat = IF S.pat # 0 THEN S.pat ELSE R.pat])
              IN /\ pool' = pool \o new
                 /\ sys' = [sys EXCEPT ![IF inplace THEN s ELSE d] = N]
                 /\ Log([o |-> "plus", s |-> s, r |-> r, d |-> d, inplace |-> inplace])
                 /\ Tick /\ UNCHANGED <<prec, dead, pat, fams>>

\* s * N, N * s, s *= N
Times ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), d \in Pick(Slots), k \in Pick({"smul", "slmul", "smuleq"}), n \in Pick(RealNodes) :
      LET S == sys[s]
      IN IF (k # "smuleq" /\ sys[d].live) \/ Len(S.fns) = 0 \/ Len(pool) > 22 \/ ~Fits(S, n)
            \/ (S.fam # 0 /\ pool[n].fv # {}) \/ ((dead \/ S.hom) /\ ~(pool[n].fv \subseteq {PathVar}))
            \/ (\E j \in 1..Len(S.fns) : pool[S.fns[j]].td + pool[n].td > 4)
         THEN Skip
         ELSE LET new == [j \in 1..Len(S.fns) |-> GhostBin("mul", n, S.fns[j])]
                  F == [j \in 1..Len(S.fns) |-> Len(pool) + j]
              IN /\ pool' = pool \o new
                 /\ sys' = [sys EXCEPT ![IF k = "smuleq" THEN s ELSE d] = NoCur([S EXCEPT !.fns = F])]
                 /\ Log([o |-> "times", k |-> k, s |-> s, d |-> d, n |-> n])
                 /\ Tick /\ UNCHANGED <<prec, dead, pat, fams>>

Concat ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), r \in Pick(Live), d \in Pick(Slots) :
      LET S == sys[s]  R == sys[r]
      IN IF S.fam # R.fam \/ S.groups # R.groups \/ S.hom # R.hom \/ S.path # R.path \/ sys[d].live
            \/ (S.pat # 0 /\ R.pat # 0 /\ S.pat # R.pat) \/ Len(S.fns) + Len(R.fns) > 6 THEN Skip
         ELSE /\ sys' = [sys EXCEPT ![d] = NoCur([S EXCEPT !.fns = S.fns \o R.fns, !.pat = IF S.pat # 0 THEN S.pat ELSE R.pat])]
              /\ Log([o |-> "concat", s |-> s, r |-> r, d |-> d])
              /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

\* degrees -----------------------------------------------------------------
TotDegs(s) == LET D == Degs(pool, SVars(s), <<>>) IN [j \in 1..Len(s.fns) |-> D[s.fns[j]]]
Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
PolyIn(s) == \A i \in 1..Len(s.groups) : s.groups[i].kind = "ung" \/ \A j \in 1..Len(s.fns) : GroupDeg(s, i, s.fns[j]) >= 0
\* the degree of a homogenized function in all the variables: the sum over affine groups plus the rest, term by term;
\* claimed only where there is one group
Reorder ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), k \in Pick({"dec", "inc"}) :
      LET S == sys[s]
          D == TotDegs(S)
      IN IF Len(S.fns) < 2 \/ S.hom \/ ~Distinct(D) \/ (\E j \in 1..Len(D) : D[j] < 0) THEN Skip
         ELSE LET P == SortSeq([j \in 1..Len(D) |-> <<D[j], S.fns[j]>>], LAMBDA a, b : IF k = "dec" THEN a[1] > b[1] ELSE a[1] < b[1])
              IN /\ sys' = [sys EXCEPT ![s] = NoCur([@ EXCEPT !.fns = [j \in 1..Len(D) |-> P[j][2]]])]
                 /\ Log([o |-> "reorder", s |-> s, k |-> k])
                 /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

\* homogenization ------------------------------------------------------------
\* degree of homogeneity of each node in the variables S, or -1: syntactic, so TRUE is certain
NodeHomg(n, acc, S) ==
    LET A == acc[n.a]
        B == acc[n.b]
        eq(p, q) == IF p = q THEN p ELSE -1
        pl(p, q) == IF p < 0 \/ q < 0 THEN -1 ELSE p + q
    IN CASE n.op = "var" -> IF n.x \in S THEN 1 ELSE 0
         [] n.op \in Leaves -> 0
         [] n.op \in {"add", "addeq", "sub", "subeq"} -> eq(A, B)
         [] n.op \in {"mul", "muleq"} -> pl(A, B)
         [] n.op \in {"div", "diveq"} -> IF B = 0 THEN A ELSE -1
         [] n.op \in {"addi", "iadd", "subi", "isub", "addq", "qadd", "subq", "qsub"} -> eq(A, 0)
         [] n.op \in {"muli", "imul", "divi", "mulq", "qmul", "divq", "neg", "fn"} -> A
         [] n.op \in {"ipow", "cpow"} -> IF A < 0 \/ n.n < 0 THEN -1 ELSE A * n.n
         [] n.op = "sum3" -> eq(eq(A, B), acc[n.e])
         [] n.op = "prod3" -> IF n.s = <<TRUE, TRUE, TRUE>> THEN pl(pl(A, B), acc[n.e]) ELSE IF A = 0 /\ B = 0 /\ acc[n.e] = 0 THEN 0 ELSE -1
         [] OTHER -> IF A = 0 THEN 0 ELSE -1
RECURSIVE Homgs(_, _, _)
Homgs(p, S, acc) == IF Len(acc) = Len(p) THEN acc ELSE Homgs(p, S, Append(acc, NodeHomg(p[Len(acc) + 1], acc, S)))
HomgIn(s, i, f) == Homgs(pool, Range(s.groups[i].vs), <<>>)[f] >= 0
SurelyHomg(s) == \A i \in 1..Len(s.groups) : s.groups[i].kind = "aff" \/ \A j \in 1..Len(s.fns) : HomgIn(s, i, s.fns[j])
\* every function changes degree under scaling of some group, at one of the two points: certainly not homogeneous
Scaled(pt, S, c) == [x \in DOMAIN pt |-> IF x \in S THEN Mul(c, pt[x]) ELSE pt[x]]
WitnessInhom(s, i, f) ==
    LET S == Range(s.groups[i].vs)
        d == GroupDeg(s, i, f)
        at(p) == Val(Duals(pool, Env(s, p), <<>>)[f])
        V == {k \in 1..2 : LET p == [x \in DVars(s) |-> BfsPts[k][x]]
                               u == at(p)  v == at(Scaled(p, S, Zi(2)))
                           IN IsDef(u) /\ IsDef(v) /\ \A q \in 0..6 : v # Mul(PowN(Zi(2), q), u)}
    IN d >= 0 /\ V # {}
SurelyInhomg(s) == \E i \in 1..Len(s.groups) : s.groups[i].kind = "hom" /\ \E j \in 1..Len(s.fns) : WitnessInhom(s, i, s.fns[j])

Homogenize ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live) :
      LET S == sys[s]
          others == {k \in Live : k # s /\ sys[k].fam = S.fam}
          polyAll == \A j \in 1..Len(S.fns) : \A i \in 1..Len(S.groups) : GroupDeg(S, i, S.fns[j]) >= 0
      IN IF S.hom \/ S.pat # 0 \/ Len(S.fns) = 0 \/ AffIdx(S) = <<>> THEN Skip
         ELSE IF polyAll /\ \A i \in 1..Len(S.groups) : S.groups[i].kind # "hom" \/ \A j \in 1..Len(S.fns) : HomgIn(S, i, S.fns[j])
         THEN /\ sys' = [k \in Slots |-> IF k \in others THEN NoSys ELSE IF k = s THEN NoCur([S EXCEPT !.hom = TRUE]) ELSE sys[k]]
              /\ dead' = (dead \/ S.fam = 0)
              /\ Log([o |-> "homog", s |-> s, ok |-> TRUE, drop |-> others])
              /\ Tick /\ UNCHANGED <<pool, prec, pat, fams>>
         ELSE IF SurelyInhomg(S)
         THEN /\ sys' = Disturb(sys, S.fam)
              /\ Log([o |-> "homog", s |-> s, ok |-> FALSE, drop |-> {}])
              /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>
         ELSE Skip

AutoPatch ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live) :
      LET S == sys[s]
      IN IF Len(S.fns) = 0 THEN Skip
         ELSE IF (S.hom \/ AffIdx(S) = <<>>) /\ SurelyHomg(S) /\ \A i \in 1..Len(S.groups) : S.groups[i].kind # "ung"
         THEN /\ sys' = [sys EXCEPT ![s] = NoCur([S EXCEPT !.pat = pat + 1])]
              /\ pat' = pat + 1
              /\ Log([o |-> "patch", s |-> s, ok |-> TRUE, id |-> pat + 1, sizes |-> [i \in 1..Len(Patchable(S)) |-> Len(GOrder(S, Patchable(S)[i]))]])
              /\ Tick /\ UNCHANGED <<pool, prec, dead, fams>>
         ELSE IF ~S.hom /\ AffIdx(S) # <<>> /\ S.pat = 0
         THEN /\ Log([o |-> "patch", s |-> s, ok |-> FALSE, id |-> 0, sizes |-> <<>>])
              /\ Tick /\ UNCHANGED <<sys, pool, prec, dead, pat, fams>>
         ELSE Skip

CopyPatch ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), r \in Pick(Live) :
      IF r = s \/ sys[r].pat = 0 \/ sys[s].groups # sys[r].groups \/ sys[s].hom # sys[r].hom \/ Len(sys[s].fns) = 0 THEN Skip
      ELSE /\ sys' = [sys EXCEPT ![s] = NoCur([@ EXCEPT !.pat = sys[r].pat])]
           /\ Log([o |-> "cpatch", s |-> s, r |-> r])
           /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

Dehom ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), ty \in Pick({"dbl", "mp"}) : \E pt \in PtPick(sys[s]) :
      LET S == sys[s]
          q == NatOrder(S)
          res(x) == IF HomOf(S, x) = "" THEN pt[x] ELSE Div(pt[x], pt[HomOf(S, x)])
      IN /\ Log([o |-> "dehom", s |-> s, ty |-> ty, x |-> Coords(S, pt), exp |-> [i \in 1..Len(q) |-> res(q[i])]])
         /\ Tick /\ UNCHANGED <<pool, sys, prec, dead, pat, fams>>

Rescale ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live), ty \in Pick({"dbl", "mp"}) :
      IF sys[s].pat = 0 THEN Skip
      ELSE \E pt \in PtPick(sys[s]) :
         /\ Log([o |-> "rescale", s |-> s, ty |-> ty, x |-> Coords(sys[s], pt), pat |-> sys[s].pat])
         /\ Tick /\ UNCHANGED <<pool, sys, prec, dead, pat, fams>>

\* what a system says about itself
B2N(b) == IF b THEN 1 ELSE 0
CountKind(s, k) == Cardinality({i \in 1..Len(s.groups) : s.groups[i].kind = k})
Query ==
    IF Live = {} THEN Skip
    ELSE \E s \in Pick(Live) :
      LET S == sys[s]
          np == IF S.pat # 0 THEN Len(Patchable(S)) ELSE 0
          nh == IF S.hom THEN CountKind(S, "aff") ELSE 0
          degs == TotDegs(S)
      IN /\ Log([o |-> "query", s |-> s, vars |-> Order(S),
                 counts |-> <<Len(S.fns), Len(S.fns) + np, Len(Order(S)), Len(Order(S)) - nh, nh, CountKind(S, "aff"),
                              CountKind(S, "hom"), CountKind(S, "ung"), np, B2N(S.path)>>,
                 sizes |-> [i \in 1..Len(Patchable(S)) |-> Len(GOrder(S, Patchable(S)[i]))],
                 patched |-> B2N(S.pat # 0), prec |-> prec,
                 \* -1: nothing claimed
                 poly |-> IF PolyIn(S) THEN 1 ELSE IF Profile = "deg" THEN 0 ELSE -1,   \* elsewhere a simplification may have removed what was not polynomial
                 homg |-> IF S.hom = FALSE /\ CountKind(S, "aff") > 0 THEN 0 ELSE IF SurelyHomg(S) THEN 1 ELSE -1,
                 gdegs |-> [i \in 1..Len(S.groups) |-> [g |-> GOrder(S, i), d |-> [j \in 1..Len(S.fns) |-> IF Profile \in {"deg", "hom", "arith"} THEN GroupDeg(S, i, S.fns[j]) ELSE -1]]]])
         /\ Tick /\ UNCHANGED <<pool, sys, prec, dead, pat, fams>>

\* single expressions ----------------------------------------------------------
NodeObs ==
    \E n \in Pick(RealNodes), ty \in Pick({"dbl", "mp"}), w \in WPick(<<"val", "val", "dif", "jac", "serial", "simp">> \o IF Profile = "simp" THEN <<"simp", "simpn", "simpn">> ELSE <<>>) :
      IF dead \/ pool[n].fv = {} THEN Skip
      ELSE \E pt \in IF Sim THEN {TLCEval([x \in pool[n].fv |-> RandomElement(IF w = "simp" THEN NiceVals ELSE Vals)])}
                    ELSE {[x \in pool[n].fv |-> BfsPts[i][x]] : i \in 1..2} :
        LET V == pool[n].fv
            D == Duals(pool, [x \in V |-> VarV(pt[x], x, V)], <<>>)[n]
            q == SetToSeq(V)
        IN /\ Log([o |-> "nobs", n |-> n, ty |-> ty, w |-> w, vs |-> q, x |-> [i \in 1..Len(q) |-> pt[q[i]]],
                   val |-> Val(D), der |-> [i \in 1..Len(q) |-> Der(D, q[i])]])
           /\ sys' = Disturb(sys, 0)
           /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>

NodeDegs ==
    \E n \in Pick(RealNodes) :
      IF dead THEN Skip
      ELSE \E S \in Pick(SUBSET SpaceVars \ {{}}) :
        LET q == SetToSeq(S)
        IN /\ Log([o |-> "ndegs", n |-> n, vs |-> q,
                   each |-> [i \in 1..Len(q) |-> Degs(pool, {q[i]}, <<>>)[n]],
                   all |-> Degs(pool, S, <<>>)[n],
                   homg |-> IF Homgs(pool, S, <<>>)[n] >= 0 THEN 1
                            ELSE LET V == pool[n].fv
                                     at(p) == Val(Duals(pool, [x \in SpaceVars \cup {PathVar} |-> VarV(p[x], x, SpaceVars \cup {PathVar})], <<>>)[n])
                                     bad == {k \in 1..2 : LET p == [x \in SpaceVars \cup {PathVar} |-> BfsPts[k][x]]
                                                              u == at(p)  v == at(Scaled(p, S, Zi(2)))
                                                          IN IsDef(u) /\ IsDef(v) /\ \A e \in 0..6 : v # Mul(PowN(Zi(2), e), u)}
                                 IN IF bad # {} /\ Degs(pool, S, <<>>)[n] >= 0 THEN 0 ELSE -1])
           /\ Tick /\ UNCHANGED <<pool, sys, prec, dead, pat, fams>>

\* ---------------------------------------------------------------- scheduling
Do(k) == CASE k = "mk" -> MkNode [] k = "new" -> NewSys [] k = "addfn" -> AddFn [] k = "addsub" -> AddSub [] k = "addvar" -> AddVar
           [] k = "method" -> Method [] k = "act" -> Act
           [] k = "eval" -> Observe(<<"eval", "eval", "evalip">>)
           [] k = "jac" -> Observe(<<"jac">>)
           [] k = "td" -> Observe(<<"td">>)
           [] k = "obs" -> Observe(<<"eval", "evalip", "jac", "jac", "td">>)
           [] k = "set" -> SetPt [] k = "bad" -> Bad [] k = "prec" -> Precision [] k = "copy" -> Copy [] k = "drop" -> Drop
           [] k = "plus" -> Plus [] k = "times" -> Times [] k = "concat" -> Concat [] k = "reorder" -> Reorder
           [] k = "homog" -> Homogenize [] k = "patch" -> AutoPatch [] k = "cpatch" -> CopyPatch [] k = "dehom" -> Dehom [] k = "rescale" -> Rescale
           [] k = "query" -> Query [] k = "nobs" -> NodeObs [] k = "ndegs" -> NodeDegs

Weights ==
    CASE Profile = "eval" -> <<"mk", "addfn", "addvar", "addsub", "method", "method", "act", "eval", "eval", "eval", "eval", "eval", "jac", "td", "set", "bad",
                               "copy", "nobs", "nobs", "prec", "new", "query">>
      [] Profile = "diff" -> <<"mk", "addfn", "addvar", "method", "method", "act", "eval", "jac", "jac", "jac", "td", "td", "set", "bad", "copy", "nobs", "nobs", "nobs", "prec">>
      [] Profile = "simp" -> <<"mk", "addfn", "act", "act", "act", "act", "method", "obs", "obs", "obs", "nobs", "nobs", "set", "copy", "prec">>
      [] Profile = "prec" -> <<"mk", "addfn", "prec", "prec", "prec", "prec", "method", "act", "obs", "obs", "obs", "obs", "obs", "copy", "set", "nobs", "query">>
      [] Profile = "arith" -> <<"mk", "new", "addfn", "copy", "copy", "copy", "plus", "plus", "plus", "times", "times", "times", "concat", "reorder", "homog", "method",
                               "obs", "obs", "obs", "obs", "obs", "drop", "prec", "act", "patch", "cpatch", "cpatch">>
      [] Profile = "deg" -> <<"mk", "mk", "new", "addfn", "reorder", "ndegs", "ndegs", "ndegs", "query", "query", "act", "plus", "times", "obs">>
      [] Profile = "hom" -> <<"mk", "addfn", "copy", "plus", "times", "concat", "homog", "homog", "homog", "patch", "patch", "patch", "dehom", "dehom", "rescale", "rescale", "cpatch",
                              "query", "query", "query", "obs", "obs", "obs", "obs", "method", "act", "prec", "addvar", "reorder">>
      [] Profile = "all" -> <<"mk", "new", "addfn", "addvar", "addsub", "method", "act", "eval", "eval", "jac", "td", "set", "bad", "prec", "copy", "drop", "plus", "times",
                              "concat", "reorder", "homog", "patch", "cpatch", "dehom", "rescale", "query", "nobs">>

ObsKinds == <<"obs", "obs", "nobs", "query">>
Setup == IF Profile = "hom" THEN <<"mk", "mk", "mk", "mk", "mk", "mk", "mk", "mk", "new", "addfn", "addfn", "addfn">>
         ELSE <<"mk", "mk", "mk", "mk", "mk", "mk", "mk", "new", "addfn", "addfn">>

\* every behaviour of a small alphabet (BFS) starts from this pool and system
B(op, a, b, n) == [Blank EXCEPT !.op = op, !.a = a, !.b = b, !.n = n]
BfsPool == VarPool \o << [B("mul", 1, 2, 0) EXCEPT !.fv = {"x", "y"}, !.td = 2],            \* 6: x*y
                         [B("fn", 6, 1, 0) EXCEPT !.fv = {"x", "y"}, !.td = 2],             \* 7: f = x*y
                         [B("ipow", 1, 1, 2) EXCEPT !.fv = {"x"}, !.td = 2],                \* 8: x^2
                         [[B("rat", 1, 1, 0) EXCEPT !.c = Q(1, 3)] EXCEPT !.td = 0],        \* 9: 1/3
                         [B("mul", 9, 5, 0) EXCEPT !.fv = {"t"}, !.td = 1],                 \* 10: t/3
                         [B("add", 8, 10, 0) EXCEPT !.fv = {"x", "t"}, !.td = 2],           \* 11: x^2 + t/3
                         [B("add", 7, 11, 0) EXCEPT !.fv = {"x", "y", "t"}, !.td = 2],      \* 12: f + x^2 + t/3
                         [B("mul", 2, 9, 0) EXCEPT !.fv = {"y"}, !.td = 1],                 \* 13: y/3
                         [B("fn", 13, 1, 0) EXCEPT !.fv = {"y"}, !.td = 1] >>               \* 14: g = y/3
BfsSys == [Fresh(0, <<G("aff", <<"x", "y">>)>>, TRUE) EXCEPT !.fns = <<12, 7>>]
BfsHist == [i \in 1..9 |-> LET n == BfsPool[i + 5] IN [o |-> "node", id |-> i + 5, op |-> n.op, a |-> n.a, b |-> n.b, e |-> n.e, n |-> n.n, c |-> n.c, s |-> n.s]]
           \o << [o |-> "new", s |-> 1, g |-> BfsSys.groups, path |-> TRUE], [o |-> "addfn", s |-> 1, n |-> 12], [o |-> "addfn", s |-> 1, n |-> 7] >>

Init == /\ step = 0 /\ dead = FALSE /\ pat = 0 /\ fams = 0 /\ prec = 30
        /\ pool = IF Sim THEN VarPool ELSE BfsPool
        /\ sys = IF Sim THEN [s \in Slots |-> NoSys] ELSE [s \in Slots |-> IF s = 1 THEN BfsSys ELSE NoSys]
        /\ hist = IF Sim THEN <<>> ELSE BfsHist

\* BFS alphabet: deterministic instances of the actions above, on the systems 1 and 2
BfsNext ==
    \/ \E s \in Live, ty \in {"dbl", "mp"}, w \in {"eval", "jac", "td"}, i \in 1..2 :
         LET pt == [x \in DVars(sys[s]) |-> BfsPts[i][x]]
         IN /\ (step < MaxOps - 1 => i = 1 /\ s = 1)          \* the last observation is the telling one
            /\ (w = "td" => sys[s].path)
            /\ sys' = SetCur(sys, s, ty, pt)
            /\ Log([o |-> "obs", w |-> w, s |-> s, ty |-> ty, noarg |-> FALSE, x |-> Coords(sys[s], pt),
                    t |-> IF sys[s].path THEN pt[PathVar] ELSE <<>>, exp |-> Expect(sys[s], w, pt), pat |-> sys[s].pat])
            /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>
    \/ step < MaxOps - 1 /\ Method
    \/ step < MaxOps - 1 /\ Act
    \/ step < MaxOps - 1 /\ Homogenize
    \/ step < MaxOps - 1 /\ AutoPatch
    \/ step < MaxOps - 1 /\ Reorder
    \/ step < MaxOps - 1 /\ ~dead /\ sys[1].live /\ sys[1].fam = 0 /\ ~sys[1].hom /\ sys[1].pat = 0 /\ Len(sys[1].fns) < 3 /\
         /\ sys' = [sys EXCEPT ![1] = NoCur([@ EXCEPT !.fns = Append(@, 14)])]
         /\ Log([o |-> "addfn", s |-> 1, n |-> 14])
         /\ Tick /\ UNCHANGED <<pool, prec, dead, pat, fams>>
    \/ step < MaxOps - 1 /\ \E p \in {30, 50} : p # prec /\
         /\ prec' = p
         /\ sys' = [k \in Slots |-> IF sys[k].live THEN [sys[k] EXCEPT !.cur.mp = <<>>] ELSE sys[k]]
         /\ Log([o |-> "prec", p |-> p])
         /\ Tick /\ UNCHANGED <<pool, dead, pat, fams>>
    \/ step < MaxOps - 1 /\ ~sys[2].live /\ sys[1].live /\ \E k \in {"scopy", "sclone", "smove"} :
         LET indep == k = "sclone"
             new == IF indep THEN NoCur([sys[1] EXCEPT !.fam = fams + 1]) ELSE sys[1]
         IN /\ sys' = IF k = "smove" THEN [sys EXCEPT ![1] = NoSys, ![2] = new] ELSE [sys EXCEPT ![2] = new]
            /\ fams' = IF indep THEN fams + 1 ELSE fams
            /\ Log([o |-> "copy", k |-> k, s |-> 1, d |-> 2])
            /\ Tick /\ UNCHANGED <<pool, prec, dead, pat>>
    \/ step < MaxOps - 1 /\ sys[1].live /\ sys[2].live /\ sys[1].fam = sys[2].fam /\ sys[1].hom = sys[2].hom /\ Len(sys[1].fns) = Len(sys[2].fns)
         /\ (sys[1].pat = 0 \/ sys[2].pat = 0 \/ sys[1].pat = sys[2].pat)
         /\ Len(pool) < 20 /\ (sys[1].hom => SameDegs(sys[1], sys[2])) /\
         LET S == sys[1]  R == sys[2]
         IN /\ pool' = pool \o [j \in 1..Len(S.fns) |-> GhostBin("add", R.fns[j], S.fns[j])]
            /\ sys' = [sys EXCEPT ![1] = NoCur([S EXCEPT !.fns = [j \in 1..Len(S.fns) |-> Len(pool) + j], !.pat = IF S.pat # 0 THEN S.pat ELSE R.pat])]
            /\ Log([o |-> "plus", s |-> 1, r |-> 2, d |-> 1, inplace |-> TRUE])
            /\ Tick /\ UNCHANGED <<prec, dead, pat, fams>>
    \/ step < MaxOps - 1 /\ sys[1].live /\ Len(pool) < 20 /\ sys[1].fam = 0 /\
         LET S == sys[1]
         IN /\ pool' = pool \o [j \in 1..Len(S.fns) |-> GhostBin("mul", 10, S.fns[j])]
            /\ sys' = [sys EXCEPT ![1] = NoCur([S EXCEPT !.fns = [j \in 1..Len(S.fns) |-> Len(pool) + j]])]
            /\ Log([o |-> "times", k |-> "smuleq", s |-> 1, d |-> 1, n |-> 10])
            /\ Tick /\ UNCHANGED <<prec, dead, pat, fams>>

SimNext == \E k \in WPick(IF step < Len(Setup) THEN <<Setup[step + 1]>>
                          ELSE IF step >= MaxOps - 3 THEN (IF Profile = "deg" THEN <<"ndegs", "query">> ELSE ObsKinds) ELSE Weights) : Do(k)

Next == step < MaxOps /\ IF Sim THEN SimNext ELSE BfsNext
Spec == Init /\ [][Next]_vars

\* a finished behaviour is handed to the driver
Emit == step = MaxOps => PrintT("HIST " \o ToJson(hist))

\* ------------------------------------------------------- properties of the model
\* Euler: a homogenized function scales by c^deg in each group
EulerOK ==
    \A s \in Live : sys[s].hom =>
      LET S == sys[s]
          pt == [x \in DVars(S) |-> BfsPts[1][x]]
          u == FnDuals(S, pt)
      IN \A i \in 1..Len(S.groups) : S.groups[i].kind = "aff" =>
           LET v == FnDuals(S, Scaled(pt, Range(GOrder(S, i)), Zi(2)))
           IN \A j \in 1..Len(S.fns) :
                u[j] # NoDual /\ v[j] # NoDual =>
                  v[j].v = Mul(PowN(Zi(2), GroupDeg(S, i, S.fns[j])), u[j].v)
\* at homogenizing variables equal to one it is the original function
DehomOK ==
    \A s \in Live : sys[s].hom =>
      LET S == sys[s]
          pt == [x \in DVars(S) |-> IF x \in Range(HomVars) THEN C1 ELSE BfsPts[1][x]]
          u == FnDuals(S, pt)
          v == FnDuals([S EXCEPT !.hom = FALSE], pt)
      IN \A j \in 1..Len(S.fns) : u[j] # NoDual /\ v[j] # NoDual => u[j].v = v[j].v
TypeOK == /\ prec \in {30, 40, 50, 70, 100}
          /\ \A s \in Live : \A j \in 1..Len(sys[s].fns) : sys[s].fns[j] \in 1..Len(pool)
          /\ \A s \in Live : sys[s].fam \in 0..fams
\* an operation on one system leaves what the others mean alone, unless it drops them
Meaning(s) == [fns |-> sys[s].fns, groups |-> sys[s].groups, path |-> sys[s].path, hom |-> sys[s].hom, pat |-> sys[s].pat]
Others == [][ \A s \in Slots : LET h == hist'[Len(hist')]
                               IN (hist' # hist /\ sys[s].live /\ sys'[s].live /\ "s" \in DOMAIN h /\ h.s # s
                                   /\ ("d" \notin DOMAIN h \/ h.d # s) /\ h.o # "prec") => Meaning(s) = Meaning(s)' ]_vars
=============================================================================
