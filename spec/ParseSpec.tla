------------------------------ MODULE ParseSpec ------------------------------
(* What a classic input text means.

   A behaviour writes one input: declarations and definitions in any admissible order, each
   definition a phrase grown from its parts.  A phrase carries its tokens, how tightly it binds,
   its meaning (a dual number at each of two sample points), and its degree; operands which bind
   too loosely are put in parentheses, others are sometimes.  At the end the whole text, its layout
   (spaces, newlines, comments, the classic CONFIG/INPUT file around it) and what the parsed system
   must be are emitted; or the text is spoilt in one place, and must be refused.            *)
EXTENDS Expr, Json, SequencesExt
CONSTANTS Sim, MaxOps
VARIABLES plan,      \* the declarations still to be written
          declared,  \* names of the variables declared so far
          open,      \* names declared as functions, constants, parameters and not yet defined
          done,      \* name -> [d, g] of everything defined so far
          stack, text, fnames, step, hist, world
vars == <<plan, declared, open, done, stack, text, fnames, step, hist, world>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* names of variables and of functions; they begin with one another, with constants and with functions
VNames == {"x", "x1", "x_1", "x[1]", "x12", "xe", "y", "yx", "Y", "z", "e1", "ee", "i2", "ii", "pie", "Pix", "sinx", "expo", "lo", "a_b_c"}
FNames == {"f", "f1", "f_1", "f[2]", "ff", "g", "g1", "h", "F", "ex", "iz", "pi1", "cosf", "sq"}
Values == {Zi(2), Zi(-1), Zi(3), C1, CI, Q(1, 2), <<1, 1, 1>>, <<1, -1, 2>>, Q(-2, 3), C0}

\* how tightly a phrase binds
Atom == 0
Signed == 1
Power == 2
Term == 3
Sum == 4

Ph(t, l, d, g, z) == [t |-> t, l |-> l, d |-> d, g |-> g, z |-> z]
Paren(p) == Ph(<<"(">> \o p.t \o <<")">>, Atom, p.d, p.g, p.z)
Fit(p, l) == IF p.l <= l THEN p ELSE Paren(p)
Both(d) == d[1] # NoDual /\ d[2] # NoDual
Vs == DOMAIN world.env
Const(c) == <<ConstV(c, Vs), ConstV(c, Vs)>>

\* literals: the text and the value
Literals == { <<"0", C0>>, <<"1", C1>>, <<"2", Zi(2)>>, <<"3", Zi(3)>>, <<"10", Zi(10)>>, <<"007", Zi(7)>>,
              <<"0.1", Q(1, 10)>>, <<".5", Q(1, 2)>>, <<"2.", Zi(2)>>, <<"1.50", Q(3, 2)>>, <<"0.003", Q(3, 1000)>>,
              <<"1e2", Zi(100)>>, <<"2E-1", Q(1, 5)>>, <<"1.2e1", Zi(12)>>, <<"3.5E-2", Q(7, 200)>>, <<".25e1", Q(5, 2)>>, <<"7.e-1", Q(7, 10)>>, <<"12e-2", Q(3, 25)>>,
              <<"i", CI>>, <<"I", CI>> }
\* constants which are not numbers, in a context with a known value
Consts == { <<<<"sin", "(", "pi", "/", "6", ")">>, Q(1, 2)>>, <<<<"cos", "(", "Pi", ")">>, Zi(-1)>>, <<<<"log", "(", "e", ")">>, C1>>,
            <<<<"exp", "(", "1", ")">>, <<>>>>, <<<<"tan", "(", "pi", "/", "4", ")">>, C1>>, <<<<"sqrt", "(", "16", ")">>, Zi(4)>>,
            <<<<"exp", "(", "i", "*", "pi", ")">>, Zi(-1)>>, <<<<"log", "(", "E", "^", "3", ")">>, Zi(3)>> }
SmallLits == {<<"2", Zi(2)>>, <<"0.5", Q(1, 2)>>}

\* whether a phrase is free of the variables: its derivatives are not structurally zero, so ask the degree
Op2(op, a, b) ==
    LET D(f(_, _)) == <<f(a.d[1], b.d[1]), f(a.d[2], b.d[2])>>
    IN CASE op = "+" -> Ph(Fit(a, Sum).t \o <<"+">> \o Fit(b, Term).t, Sum, D(DAdd), SumDeg(a.g, b.g), a.z + b.z)
         [] op = "-" -> Ph(Fit(a, Sum).t \o <<"-">> \o Fit(b, Term).t, Sum, D(DSub), SumDeg(a.g, b.g), a.z + b.z)
         [] op = "*" -> Ph(Fit(a, Term).t \o <<"*">> \o Fit(b, Power).t, Term, D(DMul), MulDeg(a.g, b.g), a.z + b.z)
         [] op = "/" -> Ph(Fit(a, Term).t \o <<"/">> \o Fit(b, Power).t, Term, D(DDiv), DivDeg(a.g, b.g), a.z + b.z)
D1(a, f(_)) == <<f(a.d[1]), f(a.d[2])>>
PowP(a, n, style) ==
    LET m == IF n < 0 THEN -n ELSE n
        e == CASE style = 1 /\ n >= 0 -> <<ToString(m)>> [] style = 1 -> <<"-", ToString(m)>>
               [] style = 2 /\ n >= 0 -> <<"(", ToString(m), ")">> [] style = 2 -> <<"(", "-", ToString(m), ")">>
               [] style = 3 -> <<"(", ToString(m + 1), "-", ToString(m + 1 - n), ")">>
        f(d) == DPowI(d, n)
    IN Ph(Fit(a, Atom).t \o <<"^">> \o e, Power, IF style = 3 /\ \E k \in 1..2 : a.d[k] # NoDual /\ a.d[k].v = C0 THEN <<NoDual, NoDual>> ELSE D1(a, f), PowDeg(a.g, n), a.z + 1)
SignP(a, s) == Ph(<<s>> \o Fit(a, Power).t, Signed, IF s = "-" THEN D1(a, DNeg) ELSE a.d, a.g, a.z + 1)
Call(f, a) == <<f, "(">> \o a.t \o <<")">>
FnP(a, f) ==
    LET At(c, w, s) == LET g(d) == DAt(d, c, w, s) IN D1(a, g)
        If1(P(_)) == LET g(d) == IF d = NoDual THEN NoDual ELSE If(P(d), d) IN D1(a, g)
        OneIf(P(_)) == LET g(d) == IF d = NoDual THEN NoDual ELSE If(P(d), ConstV(C1, Vs)) IN D1(a, g)
        k == TransDeg(a.g)
    IN CASE f = "sin" -> Ph(Call("sin", a), Atom, At(C0, C0, C1), k, a.z + 1)
         [] f = "tan" -> Ph(Call("tan", a), Atom, At(C0, C0, C1), k, a.z + 1)
         [] f = "cos" -> Ph(Call("cos", a), Atom, At(C0, C1, C0), k, a.z + 1)
         [] f = "exp" -> Ph(Call("exp", a), Atom, At(C0, C1, C1), k, a.z + 1)
         [] f = "log" -> Ph(Call("log", a), Atom, At(C1, C0, C1), k, a.z + 1)
         [] f = "sqrt" -> Ph(Call("sqrt", a), Atom, D1(a, DSqrt), k, a.z + 1)
         [] f = "explog" -> Ph(<<"exp", "(">> \o Call("log", a) \o <<")">>, Atom, If1(OffCut), k, a.z + 2)
         [] f = "logexp" -> Ph(<<"log", "(">> \o Call("exp", a) \o <<")">>, Atom, If1(Small), k, a.z + 2)
         [] f = "sqrtsq" -> Ph(Call("sqrt", a) \o <<"^", "2">>, Power, If1(OffCut), k, a.z + 2)
         [] f = "pyth" -> Ph(Call("sin", a) \o <<"^", "2", "+">> \o Call("cos", a) \o <<"^", "2">>, Sum, OneIf(Small), k, 2 * a.z + 2)
         [] f = "expinv" -> Ph(Call("exp", a) \o <<"*">> \o Call("exp", SignP(a, "-")), Term, OneIf(Small), k, 2 * a.z + 2)
Fns == {"sin", "tan", "cos", "exp", "log", "sqrt", "explog", "logexp", "sqrtsq", "pyth", "expinv"}

\* ---- the world: what is to be declared, decided at the start
MaxSize == 14
Tick == step' = step + 1
Push(p) == IF Both(p.d) /\ p.z <= MaxSize THEN stack' = Append(stack, p) ELSE UNCHANGED stack
Top == stack[Len(stack)]
Below == stack[Len(stack) - 1]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Rest2 == SubSeq(stack, 1, Len(stack) - 2)
Repl(r, p) == IF Both(p.d) /\ p.z <= MaxSize THEN stack' = Append(r, p) ELSE stack' = r
NoHist == UNCHANGED hist
Log(r) == hist' = Append(hist, r)

RECURSIVE Some(_, _)
Some(S, n) == IF n = 0 \/ S = {} THEN {<<>>} ELSE UNION {{<<x>> \o s : s \in {TLCEval(CHOOSE r \in Some(S \ {x}, n - 1) : TRUE)}} : x \in {RandomElement(S)}}

Kinds == {"variable_group", "hom_variable_group", "variable"}
Setup == \E nv \in Pick(1..4), nf \in Pick(1..3), nc \in Pick(0..2), cut \in Pick(1..4), path \in Pick({TRUE, FALSE}) :
   \E v \in {TLCEval(CHOOSE s \in Some(VNames, nv) : TRUE)}, f \in {TLCEval(CHOOSE s \in Some(FNames, nf + nc) : TRUE)},
      k1 \in Pick({"variable_group", "hom_variable_group", "variable"}), k2 \in Pick(Kinds), pk \in Pick({"constant", "parameter"}) :
     LET c == IF cut >= nv THEN nv ELSE cut
         g1 == [k |-> IF k1 = "hom_variable_group" /\ c = 1 THEN "variable_group" ELSE k1, n |-> SubSeq(v, 1, c)]
         g2 == [k |-> IF k2 = "hom_variable_group" /\ nv - c = 1 THEN "variable" ELSE k2, n |-> SubSeq(v, c + 1, nv)]
         fs == [k |-> "function", n |-> SubSeq(f, 1, nf)]
         cs == [k |-> pk, n |-> SubSeq(f, nf + 1, nf + nc)]
         p == [k |-> "pathvariable", n |-> <<"t">>]
     IN /\ plan' = SelectSeq(<<g1, g2, fs, cs>> \o (IF path THEN <<p>> ELSE <<>>), LAMBDA d : d.n # <<>>)
        /\ world' = [world EXCEPT !.env = TLCEval([x \in Range(v) \cup (IF path THEN {"t"} ELSE {}) |-> <<RandomElement(Values), RandomElement(Values)>>]), !.path = path]
        /\ Tick /\ UNCHANGED <<declared, open, done, stack, text, fnames, hist>>
SetupSmall ==
        /\ plan' = <<[k |-> "variable_group", n |-> <<"x", "x1">>], [k |-> "function", n |-> <<"f">>]>>
        /\ world' = [world EXCEPT !.env = [x \in {"x", "x1"} |-> IF x = "x" THEN <<Zi(2), <<1, -1, 2>>>> ELSE <<Zi(3), <<-1, 1, 1>>>>]]
        /\ Tick /\ UNCHANGED <<declared, open, done, stack, text, fnames, hist>>

RECURSIVE Commas(_)
Commas(n) == IF Len(n) = 1 THEN n ELSE <<n[1], ",">> \o Commas(Tail(n))
Declare == \E i \in Pick(1..Len(plan)) :
    LET d == plan[i] IN
    /\ plan' = RemoveAt(plan, i)
    /\ text' = Append(text, <<d.k>> \o Commas(d.n) \o <<";">>)
    /\ IF d.k \in Kinds \cup {"pathvariable"} THEN declared' = declared \o d.n /\ UNCHANGED <<open, fnames>>
       ELSE declared' = declared /\ open' = open \o d.n /\ fnames' = (IF d.k = "function" THEN fnames \o d.n ELSE fnames)
    /\ world' = (IF d.k \in Kinds THEN [world EXCEPT !.groups = Append(@, d)] ELSE world)
    /\ Tick /\ NoHist /\ UNCHANGED <<done, stack>>

VarP == \E x \in Pick(Range(declared)) :
    /\ Push(Ph(<<x>>, Atom, <<VarV(world.env[x][1], x, Vs), VarV(world.env[x][2], x, Vs)>>, IF x = "t" THEN 0 ELSE 1, 1))
    /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
LitP == \E l \in Pick(IF Sim THEN Literals ELSE SmallLits) : /\ Push(Ph(<<l[1]>>, Atom, Const(l[2]), 0, 1)) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
CstP == \E l \in Pick(Consts) : /\ (IF l[2] = Undef THEN UNCHANGED stack ELSE Push(Ph(l[1], Atom, Const(l[2]), 0, 2))) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
RefP == \E x \in Pick(DOMAIN done) : /\ Push(Ph(<<x>>, Atom, done[x].d, done[x].g, 1)) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
BinP == \E op \in Pick({"+", "-", "*", "/"}) : /\ Repl(Rest2, Op2(op, Below, Top)) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
PowerP == \E n \in Pick(IF Sim THEN -2..4 ELSE {-1, 2, 3}), s \in Pick(IF Sim THEN 1..3 ELSE {1}) : /\ Repl(Rest, PowP(Top, n, s)) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
SgnP == \E s \in Pick(IF Sim THEN {"-", "+"} ELSE {"-"}) : /\ Repl(Rest, SignP(Top, s)) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
ParP == /\ Repl(Rest, [Paren(Top) EXCEPT !.z = @ + 1]) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>
CallP == \E f \in Pick(Fns) : /\ (LET p == FnP(Top, f) IN IF Both(p.d) /\ p.z <= MaxSize THEN stack' = Append(Rest, p) ELSE UNCHANGED stack) /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, open, done, text, fnames, world>>

\* the finished phrase becomes the value of a declared name, or of a new one (a subfunction)
Free == FNames \ (Range(open) \cup DOMAIN done \cup UNION {Range(plan[i].n) : i \in 1..Len(plan)})
Assign(x, o) ==
    /\ text' = Append(text, <<x, "=">> \o Top.t \o <<";">>)
    /\ done' = (x :> [d |-> Top.d, g |-> Top.g]) @@ done
    /\ open' = o /\ stack' = Rest /\ Tick /\ NoHist /\ UNCHANGED <<plan, declared, fnames, world>>
Define == \E i \in Pick(1..Len(open)) : Assign(open[i], RemoveAt(open, i))
Subfn == \E x \in Pick(Free) : Assign(x, open)

\* ---- the end: everything declared and defined
Ready == plan = <<>> /\ open = <<>>
Layouts == {"tight", "spaced", "lines", "mixed"}
Order == FlattenSeq([i \in 1..Len(world.groups) |-> world.groups[i].n])
Flat == FlattenSeq(text)
\* what may be spoilt
Faults == {"none", "semicolon", "undeclared", "extended", "redeclared", "paren", "operator", "juxtaposed", "number", "keyword", "name"}
DefIdx == {i \in 1..Len(text) : text[i][2] = "="}
Ends(t) == SubSeq(t, 1, Len(t) - 1)
Spoil(k, i) ==   \* i: a definition
    LET t == text[i]
        body == SubSeq(t, 3, Len(t) - 1)
        put(b) == [text EXCEPT ![i] = SubSeq(t, 1, 2) \o b \o <<";">>]
    IN CASE k = "semicolon" -> [text EXCEPT ![i] = Ends(t)]
         [] k = "undeclared" -> put(body \o <<"+", "qq">>)
         [] k = "extended" -> put(body \o <<"*", Order[1] \o "9">>)
         [] k = "redeclared" -> Append(text, <<"variable_group", Order[1], ";">>)
         [] k = "paren" -> put(<<"(">> \o body)
         [] k = "operator" -> put(body \o <<"*">>)
         [] k = "juxtaposed" -> put(<<"2">> \o <<"(">> \o body \o <<")">>)
         [] k = "number" -> put(body \o <<"+", "1.2.3">>)
         [] k = "keyword" -> <<<<"variables_group", "q1", ";">>>> \o text
         [] k = "name" -> Append(text, <<"variable_group", "1q", ";">>)
\* the forms of a classic file: which of CONFIG, END;, INPUT, END; are present; 99: the bare text
Forms == {99, 15, 14, 13, 12, 11, 10, 3, 2, 1, 0}
Configs == {<<>>, <<"tracktype: 0;">>, <<"final_tol: 1e-12;", "odepredictor: 5;">>, <<"mptype: 2;", "securitylevel: 1;", "ampmaxprec: 300;">>}
Or(S, x) == IF Sim THEN {RandomElement(S)} ELSE {x}
Finish == \E w \in Or({1, 2, 3, 4}, 1), k \in Or(Faults \ {"none"}, "paren"), lay \in Or(Layouts, "tight"), fk \in Or(Forms, 99), cf \in Or(Configs, <<>>), com \in Or({TRUE, FALSE}, FALSE),
            junk \in Or({TRUE, FALSE}, FALSE), pr \in Or({20, 30, 50}, 30), ev \in Or({"SLP", "FT"}, "FT") :
    \E i \in Pick(DefIdx) :
      /\ Log([o |-> "text", id |-> RandomElement(0..9999), fault |-> IF w <= 2 THEN "none" ELSE k, layout |-> lay, form |-> fk, config |-> IF fk >= 10 THEN cf ELSE <<>>, comments |-> com, junk |-> junk, prec |-> pr, ev |-> ev,
              stmts |-> IF w <= 2 THEN text ELSE Spoil(k, i),
              vars |-> Order, groups |-> world.groups, path |-> world.path, nf |-> Len(fnames),
              at |-> [j \in 1..2 |-> [x |-> [m \in 1..Len(Order) |-> world.env[Order[m]][j]],
                                      t |-> IF world.path THEN world.env["t"][j] ELSE Undef,
                                      f |-> [n \in 1..Len(fnames) |-> done[fnames[n]].d[j].v],
                                      jac |-> [n \in 1..Len(fnames) |-> [m \in 1..Len(Order) |-> done[fnames[n]].d[j].d[Order[m]]]],
                                      td |-> [n \in 1..Len(fnames) |-> IF world.path THEN done[fnames[n]].d[j].d["t"] ELSE C0]]],
              degs |-> [n \in 1..Len(fnames) |-> done[fnames[n]].g]])
      /\ step' = MaxOps + 1 /\ UNCHANGED <<plan, declared, open, done, stack, text, fnames, world>>
\* a number: sign, digits before and after the point, exponent (99: none); both lists empty is no number
Digits(n) == TLCEval([i \in 1..n |-> RandomElement(0..9)])
Number == \E na \in Pick({0, 1, 1, 3, 12}), nb \in Pick({0, 1, 2, 5, 17, 40}), ex \in Pick({99, 99, 0, 2, -3, 17, -30}), pr \in Pick({16, 20, 30, 50}), sg \in Pick({TRUE, FALSE}), pt \in Pick({TRUE, FALSE}) :
    /\ Log([o |-> "number", neg |-> sg, a |-> Digits(na), b |-> Digits(nb), point |-> pt \/ nb > 0, e |-> ex, up |-> RandomElement({TRUE, FALSE}), prec |-> pr])
    /\ Tick /\ UNCHANGED <<plan, declared, open, done, stack, text, fnames, world>>

Finished == step > MaxOps
Init == /\ plan = <<>> /\ declared = <<>> /\ open = <<>> /\ done = <<>> /\ stack = <<>> /\ text = <<>> /\ fnames = <<>> /\ step = 0 /\ hist = <<>>
        /\ world = [env |-> <<>>, path |-> FALSE, groups |-> <<>>]
Leaf == IF DOMAIN done # {} /\ RandomElement(1..4) = 1 THEN RefP
        ELSE \E k \in {RandomElement(1..9)} : IF k <= 5 THEN (IF declared = <<>> THEN LitP ELSE VarP) ELSE IF k = 9 THEN CstP ELSE LitP
Grow == \E k \in {RandomElement(1..12)} :
        IF stack = <<>> \/ k <= 3 THEN Leaf
        ELSE IF k <= 8 /\ Len(stack) >= 2 THEN BinP
        ELSE CASE k = 9 -> PowerP [] k = 10 -> SgnP [] k = 11 -> CallP [] k = 12 -> ParP [] OTHER -> Leaf
\* nothing may be left open when the steps run out
Hurry == step > MaxOps - 8
Next == IF Finished THEN FALSE
        ELSE IF step = 0 THEN (IF Sim THEN Setup ELSE SetupSmall)
        ELSE IF Ready /\ (step >= MaxOps - 1 \/ Hurry \/ ~Sim) THEN Finish
        ELSE IF ~Sim THEN (IF plan # <<>> THEN Declare
                           ELSE \/ Len(stack) = 1 /\ Define
                                \/ step + Len(stack) + 3 <= MaxOps /\ (VarP \/ LitP)
                                \/ Len(stack) >= 2 /\ BinP
                                \/ stack # <<>> /\ step + Len(stack) + 2 <= MaxOps /\ (PowerP \/ SgnP \/ (Top.l # Atom /\ ParP)))
        ELSE IF Hurry THEN (IF plan # <<>> THEN Declare ELSE IF stack = <<>> THEN Leaf ELSE Define)
        ELSE \E k \in {RandomElement(1..10)} :
             IF plan # <<>> /\ (k <= 2 \/ (declared = <<>> /\ k <= 8)) THEN Declare
             ELSE IF stack # <<>> /\ Top.z >= 3 /\ k = 3 /\ open # <<>> THEN Define
             ELSE IF stack # <<>> /\ Top.z >= 3 /\ k = 4 /\ Cardinality(DOMAIN done) < 5 THEN Subfn
             ELSE IF k = 5 /\ RandomElement(1..6) = 1 THEN Number ELSE Grow
Spec == Init /\ [][Next]_vars
Emit == (Finished /\ hist # <<>>) => PrintT("HIST " \o ToJson(hist))

\* the specification agrees with itself: parentheses around any operand leave the meaning alone, a sum of terms is a term list read from the left
Signs == \A i \in 1..Len(stack) : stack[i].l \in 0..4 /\ Both(stack[i].d) /\ stack[i].t # <<>>
Balanced(t) == LET RECURSIVE B(_, _)
                   B(s, n) == IF n < 0 THEN FALSE ELSE IF s = <<>> THEN n = 0 ELSE B(Tail(s), IF Head(s) = "(" THEN n + 1 ELSE IF Head(s) = ")" THEN n - 1 ELSE n)
               IN B(t, 0)
Bracketed == \A i \in 1..Len(stack) : Balanced(stack[i].t)
=============================================================================
