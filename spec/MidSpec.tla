------------------------------- MODULE MidSpec -------------------------------
(* The check for path crossings at the endgame boundary, over histories of checks.

   A point is <<place, off>>: places are far apart, and two points of one place differ by
   |off - off'| tenths of the tolerance; the distance counts relative to the norm of the place.
   Start points likewise, at absolute distance.  Two paths are crossed if both were tracked
   successfully and their points are closer than the tolerance; a crossed path is to be run
   again if it is crossed with one which started elsewhere.  A check passes if there is no
   crossed path; it knows nothing of the checks before it.                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Sim, MaxOps, MaxPaths
VARIABLES tol, step, hist
vars == <<tol, step, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Norm == <<1, 3, 2, 4>>                       \* of the places
Offs == IF Sim THEN {0, 1, 15, 27, 48} ELSE {0, 15}
Places == IF Sim THEN 1..4 ELSE 1..2
Abs(x) == IF x < 0 THEN -x ELSE x
SOffs == IF Sim THEN {0, 1, 30} ELSE {0, 30}
SPlaces == IF Sim THEN 1..3 ELSE {1}
Paths == [ok : BOOLEAN, x : Places \X Offs, s : SPlaces \X SOffs]
RandPath == [ok |-> RandomElement(1..5) > 1, x |-> <<RandomElement(IF RandomElement(1..2) = 1 THEN Places ELSE {1, 2}), RandomElement(Offs)>>, s |-> <<RandomElement(SPlaces), RandomElement(SOffs)>>]

Close(p, q) == p.ok /\ q.ok /\ p.x[1] = q.x[1] /\ Abs(p.x[2] - q.x[2]) < 10 * Norm[p.x[1]]
SameStart(p, q) == p.s[1] = q.s[1] /\ Abs(p.s[2] - q.s[2]) < 10
Crossed(P) == {i \in 1..Len(P) : \E j \in 1..Len(P) : j # i /\ Close(P[i], P[j])}
Rerun(P, i) == \E j \in 1..Len(P) : j # i /\ Close(P[i], P[j]) /\ ~SameStart(P[i], P[j])

Tick == step' = step + 1
SetTol == \E k \in Pick({2, 3, 5}) :
    /\ tol' = k /\ Tick
    /\ hist' = Append(hist, [o |-> "tol", k |-> k])
Check(P) == hist' = Append(hist, [o |-> "check", k |-> tol, paths |-> P, passed |-> Crossed(P) = {},
                                  crossed |-> [i \in 1..Len(P) |-> IF i \notin Crossed(P) THEN 0 ELSE IF Rerun(P, i) THEN 2 ELSE 1]])
DoCheck == /\ tol # 0
           /\ IF Sim THEN \E n \in {RandomElement(0..MaxPaths)} : \E P \in {TLCEval([i \in 1..n |-> RandPath])} : Check(P)
              ELSE \E n \in 0..MaxPaths : \E P \in [1..n -> {q \in Paths : q.ok \/ (q.x = <<1, 0>> /\ q.s = <<1, 0>>)}] : Check(P)
           /\ Tick /\ UNCHANGED tol
Init == tol = 0 /\ step = 0 /\ hist = <<>>
Next == IF step >= MaxOps THEN FALSE
        ELSE IF tol = 0 THEN SetTol
        ELSE IF Sim THEN \E k \in {RandomElement(1..6)} : IF k = 1 THEN SetTol ELSE DoCheck
        ELSE DoCheck
Spec == Init /\ [][Next]_vars

\* crossing is mutual, and so is the reason to run again
Last == hist[Len(hist)]
Mutual == (hist # <<>> /\ Last.o = "check") =>
    LET P == Last.paths
    IN /\ \A i, j \in 1..Len(P) : Close(P[i], P[j]) <=> Close(P[j], P[i])
       /\ Cardinality(Crossed(P)) # 1
       /\ \A i \in 1..Len(P) : Rerun(P, i) => \E j \in Crossed(P) : j # i /\ Rerun(P, j)
Emit == step >= MaxOps => PrintT("HIST " \o ToJson(hist))
=============================================================================
