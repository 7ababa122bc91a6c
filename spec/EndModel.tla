------------------------------ MODULE EndModel ------------------------------
(* The machine of EndMachine, closed: every event allowed may happen, with one sample factor of
   1/2.  Checked: time only approaches the target, no loop is made beyond the limit, a cycle
   number is only found where there is one, every answer of Run is justified by the state it is
   given in, and it always ends.                                                          *)
EXTENDS EndMachine
CONSTANTS F, N, Cyc, FailSafe, Deepest, Level
VARIABLES m, code, found
mvars == <<m, code, found>>
Codes == {"Success", "SecurityMaxNormReached", "MinTrackTimeReached", "CycleNumTooHigh"}
Conf(k) == [f |-> F, n |-> N, lfac |-> -1, lmin |-> -Deepest, cyc |-> Cyc, ttol |-> 5, rtol |-> 5, level |-> Level, failsafe |-> FailSafe, stable |-> 1, inf |-> FALSE, code |-> k]
Base == [n |-> "", ld |-> m.ld, ang |-> 0, err |-> 9, cyc |-> m.loops, cnt |-> IF F = "ps" THEN N + 1 ELSE m.loops * N + 1, mean |-> TRUE, geo |-> TRUE, serr |-> 9, diff |-> TRUE, chain |-> TRUE, small |-> 0, bigs |-> 0, merged |-> FALSE]
Events == {[Base EXCEPT !.n = x] : x \in {"zone", "closed", "converged", "security", "mintime"}}
          \union {[Base EXCEPT !.n = "ret"]}
          \union {[Base EXCEPT !.n = "refined", !.ld = m.ld + d] : d \in (IF F = "ps" /\ m.ph = "moving" THEN {-1} ELSE {})}   \* those which change nothing are left out
          \union {[Base EXCEPT !.n = "advance", !.ld = m.ld + d] : d \in {-2, -1, 0, 1}}
          \union {[Base EXCEPT !.n = "circle", !.ang = a] : a \in {(w * ((k * Turn) \div N)) % Turn : w \in {1, -1}, k \in 0..N}}
          \union {[Base EXCEPT !.n = "approx", !.small = x, !.bigs = y, !.cyc = IF F = "ps" THEN 1 ELSE m.loops, !.merged = z] : x \in {0, 1}, y \in {0, 1}, z \in (IF F = "ps" THEN {FALSE} ELSE BOOLEAN)}
MInit == m = Start(Conf("")) /\ code = "" /\ found = 0
MNext == \E e \in Events : \E k \in (IF e.n = "ret" THEN Codes ELSE {""}) :
           /\ m.ph # "over" /\ Allowed(Conf(k), m, e) /\ m' = After(Conf(k), m, e)
           /\ code' = k
           /\ found' = IF e.n = "approx" /\ ~e.merged THEN e.cyc ELSE found
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Bounds == m.ld >= -Deepest /\ m.loops <= FailSafe /\ m.k \in 0..(N - 1) /\ m.adv <= Deepest
CycleFound == F = "cauchy" => found % Cyc = 0
Justified == /\ code = "Success" => m.conv = 1 /\ m.apx > 0
             /\ code = "SecurityMaxNormReached" => m.bigs = 1 /\ Level <= 0
             /\ code = "MinTrackTimeReached" => m.ld - 1 <= -Deepest
             /\ code = "CycleNumTooHigh" => m.loops = FailSafe
NotStuck == m.ph # "over" => ENABLED MNext
Approaches == [][m'.ld <= m.ld]_mvars
SteadyOnLoops == [][m'.loops > m.loops => m'.ld = m.ld]_mvars
Ends == <>(m.ph = "over")
=============================================================================
