----------------------------- MODULE TrackModel -----------------------------
(* The machine of TrackMachine, closed: every event allowed may happen, over a segment of Unit
   lengths with step sizes 2^lh.  Checked: it moves forward and keeps its bounds in every state,
   every answer of TrackPath is justified by the state it is given in, and it always ends.    *)
EXTENDS TrackMachine
CONSTANTS Fixed, MaxLh, MaxSteps, MaxPrec
VARIABLES m, code
mvars == <<m, code>>

Codes == {"Success", "MaxNumStepsTaken", "MinStepSizeReached", "MaxPrecisionReached", "GoingToInfinity", "SingularStartPoint"}
Conf(k) == [fixed |-> Fixed, lhmax |-> MaxLh, lhmin |-> 0, fail |-> -1, succ |-> 1, before |-> 2, lessbefore |-> 2, lessmax |-> 1, maxprec |-> MaxPrec,
            maxsteps |-> MaxSteps, inf |-> TRUE, lh0 |-> MaxLh, h0 |-> 2^MaxLh, prec0 |-> 16, tol |-> 5, code |-> k, seen |-> <<>>]
Pow(l) == IF l < 0 THEN 0 ELSE 2^l
Row(s, n, pos, dt, lh, tot, big, b) == [n : {n}, pos : pos, dt : dt, lh : lh, prec : {s.prec}, tot : tot, big : big, a : {s.prec}, b : b]
Lhs(s) == (s.lh - 1)..(s.lh + 1)
Tot(s) == s.succ + s.fails
Events(s) ==
    CASE s.ph = "start" -> Row(s, "init", {0}, {0}, {s.lh}, {0}, {0, 1}, {16})
      [] s.ph = "called" -> Row(s, "started", {0}, {0}, {s.lh}, {0}, {0}, {16})
      [] s.ph \in {"init", "ready"} -> Row(s, "new", {s.pos}, {s.h, Unit - s.pos}, {s.lh}, {Tot(s)}, {0}, {16})
                                     \union Row(s, "prec", {s.pos}, {0}, {s.lh}, {Tot(s)}, {0}, {16, 20, s.prec + 10})
                                     \union Row(s, "singstart", {s.pos}, {0}, {s.lh}, {Tot(s)}, {0}, {16})
                                     \union Row(s, "ended", {s.pos}, {0}, {s.lh}, {Tot(s)}, {0}, {16})
      [] s.ph \in {"inf", "singstart"} -> Row(s, "ended", {s.pos}, {0}, {s.lh}, {Tot(s)}, {0}, {16})
      [] s.ph = "new" -> UNION {Row(s, n, {s.pos}, {s.dt}, {s.lh}, {Tot(s)}, {0}, {16}) : n \in {"pred", "predfail1", "predfail", "predhigher"}}
      [] s.ph = "pred" -> UNION {Row(s, n, {s.pos}, {s.dt}, {s.lh}, {Tot(s)}, {0, 1}, {16}) : n \in {"corr", "corrfail", "corrhigher"}}
      [] s.ph = "ended" -> {}
      [] OTHER -> Row(s, "prec", {s.pos}, {s.dt}, {s.lh}, {Tot(s)}, {0}, {16, 20, s.prec + 10})
                  \union UNION {Row(s, n, {s.pos, s.pos + s.dt}, {s.dt}, Lhs(s), {Tot(s) + 1}, {0}, {16}) : n \in {"ok", "fail", "inf"}}
Full(r) == [n |-> r.n, pos |-> r.pos, dt |-> r.dt, lh |-> r.lh, h |-> Pow(r.lh), prec |-> r.prec, tot |-> r.tot, big |-> r.big, a |-> r.a, b |-> r.b,
            off |-> FALSE, acur |-> 99, acorr |-> 99, err |-> 99]
MInit == m = Start(Conf("")) /\ code = ""
MNext == \E k \in (IF m.ph \in {"init", "ready", "inf", "singstart"} THEN Codes ELSE {""}) : \E r \in Events(m) :
           LET e == Full(r)
           IN /\ code = "" /\ (k = "" \/ e.n = "ended" \/ k = "Success")
              /\ Allowed(Conf(k), m, e) /\ m' = After(Conf(k), m, e)
              /\ code' = IF e.n = "ended" THEN k ELSE ""
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Bounds == /\ m.pos \in 0..Unit /\ m.lh <= MaxLh /\ m.lh >= -1
          /\ m.succ <= MaxSteps /\ m.nDec <= 1
          /\ m.ph = "new" => m.pos + m.dt <= Unit /\ (m.dt = m.h \/ m.pos + m.dt = Unit)
          /\ m.ph = "new" => m.prec <= MaxPrec
Justified == /\ code = "Success" => m.pos = Unit
             /\ code = "MaxNumStepsTaken" => m.succ = MaxSteps
             /\ code = "MinStepSizeReached" => m.lh < 0
             /\ code = "MaxPrecisionReached" => m.prec > MaxPrec
Forward == [][m'.pos >= m.pos]_mvars
NothingMovesOnFailure == [][m'.fails > m.fails => m'.pos = m.pos /\ (m'.lh < m.lh \/ m'.prec > m.precNew)]_mvars
NotStuck == m.ph # "ended" => ENABLED MNext
Ends == <>(m.ph = "ended")
=============================================================================
