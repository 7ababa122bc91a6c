----------------------------- MODULE EndMachine -----------------------------
(* One run of an endgame as a state machine over the events its observers see.

   Distances to the target time are logarithms, relative to the distance the endgame starts from;
   angles around it are in parts of a turn, Turn being a whole one.  Allowed(c, s, e) says whether
   event e may happen in state s under the settings c, After(c, s, e) the state then reached.
   The machine is explored exhaustively over small settings (EndModel) and is the oracle for
   events recorded from the real endgames (EndTrace).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Turn, ASlack, LSlack

Abs1(x) == IF x < 0 THEN -x ELSE x
LNear(a, b) == Abs1(a - b) <= LSlack
\* at vertex k of a regular n-gon, in either direction
AtVertex(ang, k, n, way) == LET d == (ang - way * ((k * Turn) \div n)) % Turn IN d <= ASlack \/ d >= Turn - ASlack

(* settings c: f (ps or cauchy), n (sample points), lfac (logarithm of the sample factor), lmin (of the least time), cyc (the path's cycle
   number), ttol (digits the tracker promises), rtol (digits refined samples have), level (of security), failsafe, stable (estimates
   needed before loops are made), inf (the path ends at infinity), code (what Run answered) *)
Start(c) == [ph |-> "start", ld |-> (c.n - 1) * c.lfac, k |-> 0, loops |-> 0, way |-> 0, adv |-> 0, apx |-> 0, conv |-> 0, bigs |-> 0]

NextTooClose(c, s) == s.ld + c.lfac < c.lmin - LSlack
NextMaybeTooClose(c, s) == s.ld + c.lfac < c.lmin + LSlack
LoopDone(s) == s.k = 0 /\ s.loops >= 1
\* the path is back where it was: after a multiple of its cycle number, or when its branches cannot be told apart any more
Back(c, s, e) == s.loops % c.cyc = 0 \/ e.merged

Allowed(c, s, e) ==
    CASE e.n \in {"prec", "failure", "cyclehigh"} -> s.ph # "over"
      [] e.n = "refined" -> IF c.f = "ps" /\ s.ph = "moving" THEN LNear(e.ld, s.ld + c.lfac) /\ e.ang = 0 ELSE LNear(e.ld, s.ld) /\ s.ph # "over"
      [] e.n = "advance" -> /\ c.f = "cauchy" /\ s.ph \in {"start", "advanced", "loop", "approx"} /\ (s.ph = "loop" => s.k = 0 /\ s.apx = 0 /\ s.loops = 1)
                            /\ (s.ph = "approx" => s.conv # 1)
                            /\ ~NextTooClose(c, s)
                            /\ LNear(e.ld, s.ld + c.lfac) /\ e.ang = 0 /\ e.err >= c.ttol - 1
      [] e.n = "zone" -> IF c.f = "ps" THEN s.ph \in {"start", "approx"} /\ (s.ph = "approx" => s.conv # 1) /\ ~NextTooClose(c, s)
                         ELSE s.ph \in {"start", "advanced"} /\ s.apx = 0 /\ s.adv >= c.stable
      [] e.n = "circle" -> /\ c.f = "cauchy" /\ s.ph \in {"zone", "advanced", "loop"} /\ s.loops < c.failsafe
                           /\ (s.ph = "loop" /\ s.apx > 0 /\ s.k = 0 => s.loops % c.cyc # 0)      \* a loop that has closed is not made again
                           /\ LNear(e.ld, s.ld) /\ e.err >= c.ttol - 1
                           /\ IF s.k + 1 = c.n THEN e.ang = 0
                              ELSE \E way \in (IF s.way = 0 THEN {1, -1} ELSE {s.way}) : AtVertex(e.ang, s.k + 1, c.n, way)
      [] e.n = "closed" -> c.f = "cauchy" /\ s.ph = "loop" /\ s.apx = 0 /\ LoopDone(s) /\ Back(c, s, e) /\ e.cyc = s.loops /\ e.cnt = s.loops * c.n + 1
      [] e.n = "approx" ->
           /\ IF c.f = "ps" THEN s.ph = "advanced" /\ e.cnt >= c.n /\ e.geo /\ e.cyc >= 1
              ELSE /\ s.ph \in {"loop", "closed"} /\ (s.ph = "loop" => s.apx > 0) /\ LoopDone(s) /\ Back(c, s, e)
                   /\ e.cyc = s.loops /\ e.cnt = s.loops * c.n + 1 /\ e.mean
           /\ e.serr >= c.rtol                              \* made from refined samples of the path
           /\ e.diff                                        \* the estimate of the error is the distance to the approximation before
           /\ e.chain                                       \* which is the one announced before
      [] e.n = "converged" -> s.ph = "approx" /\ s.conv # 0 /\ (c.f = "ps" /\ c.level <= 0 => s.bigs # 1)
      [] e.n = "security" -> s.ph = "approx" /\ c.level <= 0 /\ s.bigs # 0 /\ (c.f = "cauchy" => s.conv # 1)
      [] e.n = "mintime" -> s.ph \in {"start", "approx"} /\ NextMaybeTooClose(c, s) /\ s.conv # 1
      [] e.n = "ret" ->
           CASE c.code = "Success" -> s.ph = "converged"
             [] c.code = "SecurityMaxNormReached" -> s.ph = "security"
             [] c.code = "MinTrackTimeReached" -> s.ph \in {"mintime", "start", "advanced", "loop", "approx"} /\ NextMaybeTooClose(c, s) /\ s.conv # 1
             [] c.code = "CycleNumTooHigh" -> s.ph = "loop" /\ s.k = 0 /\ s.loops = c.failsafe /\ s.loops % c.cyc # 0
             [] OTHER -> c.inf
      [] OTHER -> FALSE

After(c, s, e) ==
    CASE e.n = "refined" -> IF c.f = "ps" /\ s.ph = "moving" THEN [s EXCEPT !.ph = "advanced", !.ld = e.ld, !.adv = @ + 1] ELSE s
      [] e.n = "advance" -> [s EXCEPT !.ph = "advanced", !.ld = e.ld, !.adv = @ + 1, !.loops = 0, !.k = 0, !.way = 0]
      [] e.n = "zone" -> IF c.f = "ps" THEN [s EXCEPT !.ph = "moving"] ELSE [s EXCEPT !.ph = "zone", !.loops = 0, !.k = 0, !.way = 0]
      [] e.n = "circle" -> LET k1 == (s.k + 1) % c.n
                           IN [s EXCEPT !.ph = "loop", !.k = k1, !.loops = IF k1 = 0 THEN @ + 1 ELSE @,
                                        !.way = IF @ # 0 \/ s.k + 1 = c.n THEN @ ELSE IF AtVertex(e.ang, 1, c.n, 1) THEN 1 ELSE -1]
      [] e.n = "closed" -> [s EXCEPT !.ph = "closed"]
      [] e.n = "approx" -> [s EXCEPT !.ph = "approx", !.apx = @ + 1, !.conv = e.small, !.bigs = e.bigs]
      [] e.n \in {"converged", "security", "mintime"} -> [s EXCEPT !.ph = e.n]
      [] e.n = "ret" -> [s EXCEPT !.ph = "over"]
      [] OTHER -> s
=============================================================================
