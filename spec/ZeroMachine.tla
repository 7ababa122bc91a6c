----------------------------- MODULE ZeroMachine -----------------------------
(* The course of a zero-dimensional solve, as the tracks it makes.

   All paths are tracked once to the endgame boundary, in order, with the tolerance for it.
   Then, as long as paths look crossed there and attempts are left, exactly the paths which are
   crossed with one that started elsewhere are tracked again, with a tolerance smaller by one
   more factor, whatever happened before.  Then the endgame is run for the paths which were
   successful, in order, from where they are at the boundary, with the tolerance for the endgame
   and the step size their last track ended with.  At the end the metadata say what happened.

   c: n paths, at most R attempts, same: pairs of paths with the same start point.
   Events  pre:  ps: the paths it can be, r: how many factors the tolerance is below the one set,
                 step, ends: initial step size and times are right, ok: success, near: the paths
                 at whose (latest) boundary points it ended, rise, maxp: precision rose (0 no, 1 yes, 2 only on the way to where the track
                 starts, which may count or not), its maximum
           eg:   ps, step, tol, ends; rise, maxp
           meta: pre: success is recorded, changed, time: of the first rise, or none, maxp       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
Both(a, b) == IF 1 \in {a, b} THEN 1 ELSE IF 2 \in {a, b} THEN 2 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

Start(c) == [ph |-> "pre", i |-> 1, r |-> 0, todo |-> {}, ok |-> [p \in 1..c.n |-> FALSE], near |-> {}, tracked |-> [p \in 1..c.n |-> 0],
             rise |-> [p \in 1..c.n |-> 0], max1 |-> [p \in 1..c.n |-> 0], max2 |-> [p \in 1..c.n |-> 0]]
Again(c, s) == {p \in 1..c.n : \E q \in 1..c.n : {p, q} \in s.near /\ p # q /\ s.ok[p] /\ s.ok[q] /\ {p, q} \notin c.same}
NextOk(c, s, j) == LET S == {p \in j..c.n : s.ok[p]} IN IF S = {} THEN c.n + 1 ELSE CHOOSE p \in S : \A q \in S : p <= q
ToEg(c, s) == LET j == NextOk(c, s, 1) IN [s EXCEPT !.ph = IF j > c.n THEN "meta" ELSE "eg", !.i = IF j > c.n THEN 1 ELSE j, !.todo = {}]
Check(c, s) == IF s.r < c.R /\ Again(c, s) # {} THEN [s EXCEPT !.ph = "resolve", !.r = @ + 1, !.todo = Again(c, s)]
               ELSE ToEg(c, s)
\* the path an event is about
Which(s, e) == CASE s.ph = "pre" -> s.i
                 [] s.ph = "resolve" -> LET S == s.todo \intersect {e.ps[k] : k \in 1..Len(e.ps)} IN IF S = {} THEN 0 ELSE CHOOSE p \in S : \A q \in S : p <= q
                 [] OTHER -> s.i
In(x, q) == \E k \in 1..Len(q) : q[k] = x

Allowed(c, s, e) ==
    CASE e.n = "pre" -> /\ \/ s.ph = "pre" /\ In(s.i, e.ps) /\ e.r = 0
                           \/ s.ph = "resolve" /\ Which(s, e) # 0 /\ e.r = s.r
                        /\ e.step /\ e.ends
      [] e.n = "eg" -> s.ph = "eg" /\ In(s.i, e.ps) /\ e.step /\ e.tol /\ e.ends
      [] e.n = "meta" -> /\ s.ph = "meta" /\ e.p = s.i
                         /\ e.pre = s.ok[e.p] /\ e.changed \in (<<{FALSE}, {TRUE}, BOOLEAN>>[s.rise[e.p] + 1]) /\ e.time
                         /\ e.maxp >= s.max1[e.p] /\ e.maxp <= Max2(s.max1[e.p], s.max2[e.p])
      [] OTHER -> FALSE
After(c, s, e) ==
    CASE e.n = "pre" ->
        LET p == Which(s, e)
            s1 == [s EXCEPT !.ok[p] = e.ok, !.near = {x \in @ : p \notin x} \union {{p, e.near[k]} : k \in 1..Len(e.near)},
                            !.tracked[p] = @ + 1, !.rise[p] = Both(@, e.rise), !.max1[p] = Max2(@, e.maxp)]
        IN IF s.ph = "pre" THEN (IF s.i = c.n THEN Check(c, [s1 EXCEPT !.i = 0]) ELSE [s1 EXCEPT !.i = @ + 1])
           ELSE IF s.todo = {p} THEN Check(c, [s1 EXCEPT !.todo = {}]) ELSE [s1 EXCEPT !.todo = @ \ {p}]
      [] e.n = "eg" ->
        LET j == NextOk(c, s, s.i + 1)
            s1 == [s EXCEPT !.rise[s.i] = Both(@, e.rise), !.max2[s.i] = Max2(@, e.maxp)]
        IN [s1 EXCEPT !.ph = IF j > c.n THEN "meta" ELSE "eg", !.i = IF j > c.n THEN 1 ELSE j]
      [] OTHER -> [s EXCEPT !.i = @ + 1, !.ph = IF s.i = c.n THEN "over" ELSE "meta"]
=============================================================================
