---------------------------- MODULE TrackMachine ----------------------------
(* One call of a tracker's TrackPath as a state machine over the events its observers see.

   Positions along the segment from start time to end time are integers, Unit being the whole
   segment; step sizes are given in that unit and as a logarithm.  Allowed(c, s, e) says whether
   event e may happen in state s under the settings c, After(c, s, e) the state then reached.

   The same machine is explored exhaustively over a small unit (MSpec), where it is shown to move
   forward, keep its bounds and always end, and is the oracle for events recorded from the real
   trackers (TrackTrace).                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Unit,      \* length of the segment
          Slack,     \* rounding allowed in positions
          LSlack     \* rounding allowed in logarithms

Abs1(x) == IF x < 0 THEN -x ELSE x
Min1(a, b) == IF a < b THEN a ELSE b
Near(a, b) == Abs1(a - b) <= Slack
LNear(a, b) == Abs1(a - b) <= LSlack

(* settings c: fixed (precision), lhmax, lhmin, fail, succ (logarithms of the factors), before (steps before an
   increase of the step size), lessbefore, lessmax (steps before, and number of, precision decreases), maxprec,
   maxsteps, inf (truncation on), lh0 and h0 (first step size), prec0, tol (digits), code (what TrackPath answered),
   seen (what the precision recorders report, if any were attached: least, greatest, first increase, start) *)
Start(c) == [ph |-> "start", pos |-> 0, dt |-> 0, h |-> c.h0, lh |-> c.lh0, prec |-> c.prec0, succ |-> 0, fails |-> 0,
             sInc |-> 0, sDec |-> 0, nDec |-> 0, why |-> "", lhNew |-> c.lh0, precNew |-> c.prec0, big |-> 0, bigcur |-> 0,
             pmin |-> c.prec0, pmax |-> c.prec0, pinc |-> 0]

AtEnd(s) == Near(s.pos, Unit)
TooMany(c, s) == s.succ >= c.maxsteps
TooSmall(c, s) == s.lh < c.lhmin - LSlack
MaybeTooSmall(c, s) == s.lh < c.lhmin + LSlack
TooPrecise(c, s) == ~c.fixed /\ s.prec > c.maxprec

Failures == {"predfail1", "predfail", "predhigher", "corrfail", "corrhigher"}

Allowed(c, s, e) ==
    CASE e.n = "init" -> s.ph = "start" /\ e.acur >= 12
      [] e.n = "new" ->
           /\ s.ph \in {"init", "ready"}
           /\ ~TooMany(c, s) /\ ~TooSmall(c, s) /\ ~TooPrecise(c, s)
           /\ e.prec = s.prec /\ e.tot = s.succ + s.fails
           /\ Near(e.pos, s.pos) /\ ~e.off
           /\ LNear(e.lh, s.lh)
           /\ Near(e.dt, Min1(s.h, Unit - s.pos))                             \* never longer than the step size, never past the end
           /\ e.acur >= (IF s.ph = "init" THEN 2 ELSE Min1(s.prec, s.precNew) - 3)
      [] e.n = "pred" -> s.ph = "new" /\ e.prec = s.prec /\ Near(e.pos, s.pos) /\ Near(e.dt, s.dt)
      [] e.n \in {"predfail1", "predfail", "predhigher"} -> s.ph = "new" /\ e.prec = s.prec /\ Near(e.pos, s.pos) /\ (c.fixed => e.n # "predhigher")
      [] e.n = "corr" -> s.ph = "pred" /\ e.prec = s.prec /\ Near(e.pos, s.pos) /\ Near(e.dt, s.dt)
      [] e.n \in {"corrfail", "corrhigher"} -> s.ph = "pred" /\ e.prec = s.prec /\ Near(e.pos, s.pos) /\ (c.fixed => e.n # "corrhigher")
      [] e.n = "prec" ->
           /\ ~c.fixed /\ e.a = s.prec /\ e.b # e.a
           /\ \/ s.ph = "init" /\ e.b > e.a /\ s.prec <= c.maxprec                                   \* the start point is refined in higher precision
              \/ s.ph \in Failures /\ e.b > e.a
              \/ s.ph = "corr" /\ (e.b < e.a => s.sDec >= c.lessbefore /\ s.nDec < c.lessmax)
           /\ s.precNew = s.prec \/ s.ph = "init"                              \* at most one change per step
      [] e.n = "ok" ->
           /\ s.ph = "corr" /\ e.prec = s.prec /\ e.tot = s.succ + s.fails + 1
           /\ Near(e.pos, s.pos + s.dt) /\ ~e.off
           /\ e.acorr >= Min1(s.prec, s.precNew) - 3                           \* the point is the corrected one
           /\ e.err >= c.tol - 1                                               \* on the path
           /\ c.inf => s.big # 1
           /\ e.lh <= c.lhmax + LSlack \/ e.lh <= s.lh + LSlack
           /\ e.lh > s.lh + LSlack => e.lh <= s.lh + c.succ + LSlack /\ s.sInc >= c.before
      [] e.n = "fail" ->
           /\ s.ph \in Failures /\ e.prec = s.prec /\ e.tot = s.succ + s.fails + 1
           /\ Near(e.pos, s.pos) /\ ~e.off
           /\ e.acur >= Min1(s.prec, s.precNew) - 3                            \* nothing has moved
           /\ e.lh <= s.lh + LSlack
           /\ e.lh < s.lh - LSlack \/ s.prec > s.precNew                       \* something was done about it
           /\ c.fixed => LNear(e.lh, s.lh + c.fail)
           /\ s.ph \in {"predhigher", "corrhigher"} => s.prec > s.precNew
           /\ s.ph \in {"predfail", "corrfail"} => e.lh < s.lh - LSlack
      [] e.n = "inf" -> c.inf /\ \/ s.ph = "corr" /\ s.big # 0
                                 \/ s.ph \in Failures /\ s.bigcur # 0
      [] e.n = "singstart" -> s.ph = "init" /\ ~c.fixed /\ s.prec > c.maxprec
      [] e.n = "ended" ->
           /\ e.prec = s.prec /\ e.tot = s.succ + s.fails /\ Near(e.pos, s.pos)
           /\ c.seen # <<>> => c.seen = <<s.pmin, s.pmax, s.pinc, c.prec0>>          \* what the precision recorders attached saw
           /\ CASE c.code = "Success" -> s.ph \in {"init", "ready"} /\ AtEnd(s)
             [] c.code = "MaxNumStepsTaken" -> s.ph \in {"init", "ready"} /\ s.succ = c.maxsteps
             [] c.code = "MinStepSizeReached" -> s.ph \in {"init", "ready"} /\ MaybeTooSmall(c, s)
             [] c.code = "MaxPrecisionReached" -> s.ph \in {"init", "ready"} /\ TooPrecise(c, s)
             [] c.code = "GoingToInfinity" -> s.ph = "inf"
             [] c.code = "SingularStartPoint" -> s.ph = "singstart"
             [] OTHER -> FALSE
      [] e.n = "started" -> s.ph = "called" /\ e.prec = s.prec /\ e.tot = 0 /\ Near(e.pos, 0)
      [] OTHER -> FALSE

After(c, s, e) ==
    CASE e.n = "init" -> [s EXCEPT !.ph = "called", !.bigcur = e.big]
      [] e.n = "started" -> [s EXCEPT !.ph = "init"]
      [] e.n = "new" -> [s EXCEPT !.ph = "new", !.dt = e.dt, !.h = e.h, !.lh = e.lh, !.lhNew = e.lh, !.precNew = s.prec, !.pos = e.pos]
      [] e.n = "pred" -> [s EXCEPT !.ph = "pred"]
      [] e.n \in Failures -> [s EXCEPT !.ph = e.n]
      [] e.n = "corr" -> [s EXCEPT !.ph = "corr", !.big = e.big]
      [] e.n = "prec" -> [s EXCEPT !.prec = e.b, !.pmin = Min1(@, e.b), !.pmax = IF e.b > @ THEN e.b ELSE @, !.pinc = IF @ = 0 /\ e.b > e.a THEN e.b ELSE @]
      [] e.n = "ok" ->
           LET up == e.lh > s.lh + LSlack \/ s.prec < s.precNew
               less == s.prec < s.precNew
           IN [s EXCEPT !.ph = "ready", !.pos = e.pos, !.h = e.h, !.lh = e.lh, !.succ = @ + 1, !.bigcur = s.big,
                        !.sInc = IF up THEN 0 ELSE Min1(@ + 1, c.before), !.sDec = IF less THEN 0 ELSE Min1(@ + 1, c.lessbefore), !.nDec = IF less THEN @ + 1 ELSE @]
      [] e.n = "fail" -> [s EXCEPT !.ph = "ready", !.h = e.h, !.lh = e.lh, !.fails = @ + 1, !.sInc = 0, !.sDec = 0]
      [] e.n = "inf" -> [s EXCEPT !.ph = "inf"]
      [] e.n = "singstart" -> [s EXCEPT !.ph = "singstart"]
      [] e.n = "ended" -> [s EXCEPT !.ph = "ended"]
      [] OTHER -> s
=============================================================================
