------------------------------- MODULE SetSpec -------------------------------
(* Settings text: the config part of a classic input file.

   A text is a sequence of statements "Name: value;", every known name at most once, in any order,
   names in any mixture of cases, among unknown statements and comments.  Read into a configuration
   structure, each of its fields whose name is there has the value written, every other field its
   default, whatever else the text holds; a structure with a malformed value is refused. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Sim, MaxOps

VARIABLES stm, step, hist
vars == <<stm, step, hist>>

\* structure, its names, what each holds
Structs == <<
  [s |-> "Stepping",   f |-> << <<"MaxStepSize", "real">>, <<"StepSuccessFactor", "real">>, <<"StepFailFactor", "real">>, <<"StepsForIncrease", "uint">>, <<"MaxNumberSteps", "uint">> >>],
  [s |-> "Newton",     f |-> << <<"MaxNewtonIts", "uint">> >>],
  [s |-> "AMP",        f |-> << <<"CoefficientBound", "real">>, <<"DegreeBound", "real">>, <<"Epsilon", "real">>, <<"Phi", "real">>, <<"Psi", "real">>, <<"AMPSafetyDigits1", "int">>, <<"AMPSafetyDigits2", "int">>,
                                <<"AMPMaxPrec", "uint">>, <<"MaxStepsPrecisionDecrease", "uint">>, <<"MaxNumPrecDecreases", "uint">> >>],
  [s |-> "Precision",  f |-> << <<"MPType", "mptype">> >>],
  [s |-> "Predictor",  f |-> << <<"ODEPredictor", "pred">> >>],
  [s |-> "Security",   f |-> << <<"SecurityLevel", "int">>, <<"SecurityMaxNorm", "real">> >>],
  [s |-> "Endgame",    f |-> << <<"SampleFactor", "real">>, <<"NumSamplePoints", "uint">>, <<"NbhdRadius", "real">> >>],
  [s |-> "PowerSeries", f |-> << <<"MaxCycleNum", "uint">> >>],
  [s |-> "Cauchy",     f |-> << <<"CycleTimeCutoff", "real">>, <<"RatioTimeCutoff", "real">> >>],
  [s |-> "TrackBack",  f |-> << <<"MinCycleTrackBack", "uint">>, <<"JunkRemovalTrackBack", "bool">>, <<"MaxLDTDepth", "uint">> >>],
  [s |-> "Tolerances", f |-> << <<"TrackTolBeforeEG", "real">>, <<"TrackTolDuringEG", "real">>, <<"FinalTol", "real">>, <<"PathTruncationThreshold", "real">> >>],
  [s |-> "ZeroDim",    f |-> << <<"InitialPrec", "uint">>, <<"PathVarName", "word">>, <<"MaxCrossedPathResolves", "uint">>, <<"StartTime", "real">>, <<"EndgameBdry", "real">>, <<"TargetTime", "real">> >>],
  [s |-> "ZeroDimMP",  f |-> << <<"InitialPrec", "uint">>, <<"PathVarName", "word">>, <<"MaxCrossedPathResolves", "uint">>, <<"StartTime", "real">>, <<"EndgameBdry", "real">>, <<"TargetTime", "real">> >>],
  [s |-> "MidPath",    f |-> << <<"MidpathTol", "real">> >>],
  [s |-> "AutoRetrack", f |-> << <<"RetrackTolFactor", "real">> >>],
  [s |-> "Sharpening", f |-> << <<"SharpenDigits", "uint">>, <<"FunctionTolerance", "real">>, <<"RatioTolerance", "real">> >>],
  [s |-> "Regeneration", f |-> << <<"RegenRemoveInf", "bool">>, <<"SliceTolBeforeEG", "real">>, <<"SliceTolDuringEG", "real">>, <<"SliceFinalTol", "real">>, <<"RegenHigherDimTest", "bool">>, <<"RegenStartLevel", "uint">> >>],
  [s |-> "PostProcessing", f |-> << <<"ImagThreshold", "real">>, <<"EndpointFiniteThreshold", "real">>, <<"EndpointSameThreshold", "real">> >>],
  [s |-> "TrackType",  f |-> << <<"TrackType", "track">> >>]
>>
Names == UNION {{Structs[i].f[j] : j \in 1..Len(Structs[i].f)} : i \in 1..Len(Structs)}
Known == {n[1] : n \in Names}
Unknown == {"heLlo", "NeWTon", "Tol", "PrintPathModulus", "x", "Max", "ODE", "RandomSeed"}

\* a value: what is written and what it means: m * 10^e exactly, or a word
V(t, m, e) == [t |-> t, m |-> m, e |-> e, w |-> ""]
W(t) == [t |-> t, m |-> 0, e |-> 0, w |-> t]
Small == << V("0", 0, 0), V("1", 1, 0), V("3", 3, 0), V("07", 7, 0), V("12", 12, 0), V("400", 400, 0) >>
Good(k) ==
    CASE k = "real" -> << V("1e-8", 1, -8), V("0.25", 25, -2), V("2", 2, 0), V("1.5E3", 15, 2), V(".125", 125, -3), V("3.", 3, 0), V("12.75e-4", 1275, -6), V("100000", 100000, 0), V("1E-14", 1, -14), V("0.1", 1, -1),
                       V("7e2", 7, 2), V("00.5", 5, -1), V("6.02e23", 602, 21), V("4.e-2", 4, -2), V("-0.5", -5, -1), V("-3", -3, 0), V("-1.25e-3", -125, -5) >>
      [] k = "uint" -> Small
      [] k = "int" -> Small \o << V("-1", -1, 0), V("-20", -20, 0), V("+4", 4, 0) >>
      [] k = "bool" -> << V("0", 0, 0), V("1", 1, 0) >>
      [] k = "mptype" -> << V("0", 0, 0), V("1", 1, 0), V("2", 1, 0) >>
      [] k = "pred" -> << V("-1", -1, 0), V("0", 0, 0), V("1", 1, 0), V("2", 2, 0), V("3", 1, 0), V("4", 4, 0), V("5", 5, 0), V("6", 6, 0), V("7", 7, 0), V("8", 8, 0) >>
      [] k = "track" -> [i \in 1..11 |-> V(ToString(i - 5), i - 5, 0)]
      [] k = "word" -> << W("t"), W("T1"), W("phi"), W("path_x"), W("FinalTol"), W("s[2]"), W("MaxNewtonIts"), W("MPType"), W("odepredictor"), W("MaxCycleNum") >>
Bad(k) ==
    CASE k = "real" -> <<"abc", "", "1e", "--3", "e5", "1.2.3", ".">>
      [] k = "uint" -> <<"-3", "2.5", "x", "", "1e3">>
      [] k = "int" -> <<"2.5", "x", "", "--1">>
      [] k \in {"bool"} -> <<"yes", "", "1.0">>
      [] k = "mptype" -> <<"3", "x", "", "1.5">>
      [] k = "pred" -> <<"9", "-2", "RK4", "">>
      [] k = "track" -> <<"7", "-5", "zerodim", "">>
      [] k = "word" -> <<"", "3t">>

Used == {stm[i].n : i \in 1..Len(stm)}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
At(q, z) == q[RandomElement(1..Len(q))]
Add(r) == stm' = Append(stm, r) /\ step' = step + 1 /\ UNCHANGED hist

\* layout: how the name is cased, what is between name, colon, value, semicolon, and after
Lay(z) == <<RandomElement(1..4), RandomElement(0..3), RandomElement(0..3), RandomElement(0..3), RandomElement(0..3)>>
GoodSt == \E n \in Pick({n \in Names : n[1] \notin Used}) :
    IF Sim THEN \E v \in {TLCEval(At(Good(n[2]), step))} : Add([c |-> "good", n |-> n[1], k |-> n[2], v |-> v, l |-> TLCEval(Lay(step))])
    ELSE Add([c |-> "good", n |-> n[1], k |-> n[2], v |-> Good(n[2])[2], l |-> <<1, 0, 1, 0, 1>>])
BadSt == \E n \in Pick({n \in Names : n[1] \notin Used}) :
    IF Sim THEN \E t \in {TLCEval(At(Bad(n[2]), step))} : Add([c |-> "bad", n |-> n[1], k |-> n[2], v |-> W(t), l |-> TLCEval(Lay(step))])
    ELSE step = 0 /\ \E i \in 1..Len(Bad(n[2])) : Add([c |-> "bad", n |-> n[1], k |-> n[2], v |-> W(Bad(n[2])[i]), l |-> <<1, 0, 1, 0, 1>>])
OtherSt == \E n \in Pick(Unknown) :
    IF Sim THEN Add([c |-> "other", n |-> n, k |-> "", v |-> TLCEval(At(Good(RandomElement({"real", "word", "uint"})), step)), l |-> TLCEval(Lay(step))])
    ELSE n = "heLlo" /\ Add([c |-> "other", n |-> n, k |-> "", v |-> W("9"), l |-> <<1, 0, 1, 0, 1>>])
Comment == \E t \in {TLCEval(At(<<"% a comment", "%", "% FinalTol: 1e-3;", "% 100% %", "%MPType: 0; MaxNewtonIts: x;">>, step))} :
    Add([c |-> "comment", n |-> "%", k |-> "", v |-> W(t), l |-> <<1, 0, 0, 0, 0>>])

\* what each structure must be: its fields are the number of the statement which gives it (0: default), or it is refused
Index(n) == IF \E i \in 1..Len(stm) : stm[i].n = n THEN CHOOSE i \in 1..Len(stm) : stm[i].n = n ELSE 0
Expect == [i \in 1..Len(Structs) |->
    [s |-> Structs[i].s,
     bad |-> \E j \in 1..Len(Structs[i].f) : LET k == Index(Structs[i].f[j][1]) IN k # 0 /\ stm[k].c = "bad",
     f |-> [j \in 1..Len(Structs[i].f) |-> LET k == Index(Structs[i].f[j][1]) IN
              IF k = 0 THEN [n |-> Structs[i].f[j][1], k |-> Structs[i].f[j][2], d |-> TRUE, v |-> W("")]
              ELSE [n |-> Structs[i].f[j][1], k |-> Structs[i].f[j][2], d |-> FALSE, v |-> stm[k].v]]]]
Over == step >= MaxOps
Read == /\ hist = <<>> /\ step' = step + 1 /\ UNCHANGED stm
        /\ \E form \in Pick(IF Sim THEN 0..3 ELSE {0}) :
           LET com == \E i \in 1..Len(stm) : stm[i].c = "comment" IN
           hist' = << [o |-> "read", form |-> IF com /\ form = 0 THEN 1 ELSE form, stm |-> stm, exp |-> Expect] >>
Init == stm = <<>> /\ step = 0 /\ hist = <<>>
Next == IF hist # <<>> THEN FALSE
        ELSE IF Over THEN Read
        ELSE IF Sim THEN \E k \in {RandomElement(1..30)} : CASE k = 1 -> BadSt [] k \in 2..5 -> OtherSt [] k \in 6..7 -> Comment [] k = 8 -> Read [] OTHER -> GoodSt
        ELSE GoodSt \/ BadSt \/ OtherSt \/ Read
Spec == Init /\ [][Next]_vars

\* a structure is refused only for a statement of its own, and a field differs from its default only because of its own statement
Owns(i, n) == \E j \in 1..Len(Structs[i].f) : Structs[i].f[j][1] = n
OwnOnly == hist # <<>> => \A i \in 1..Len(Structs) : LET x == hist[1].exp[i] IN
    /\ x.bad => \E k \in 1..Len(stm) : stm[k].c = "bad" /\ Owns(i, stm[k].n)
    /\ Cardinality({j \in 1..Len(x.f) : ~x.f[j].d}) = Cardinality({k \in 1..Len(stm) : stm[k].c \in {"good", "bad"} /\ Owns(i, stm[k].n)})
Emit == hist # <<>> => PrintT("HIST " \o ToJson(hist))
=============================================================================
