------------------------------ MODULE ZeroModel ------------------------------
(* The machine of ZeroMachine, closed: tracks succeed or fail and end near others as they like
   (near being an equivalence of the boundary points, as it is of points far apart compared to
   the tolerance).                                                                         *)
EXTENDS ZeroMachine
CONSTANTS N, R, Same
VARIABLES m, spot, egs
mvars == <<m, spot, egs>>
Conf == [n |-> N, R |-> R, same |-> Same]
Seqs(S) == IF S = {} THEN <<>> ELSE CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
MInit == m = Start(Conf) /\ spot = [p \in 1..N |-> 0] /\ egs = {}
\* where it ends: paths with the same start are the same path, as long as they are tracked with the same tolerance
Pre == \E p \in 1..N, ok \in BOOLEAN, x \in 1..N :
    LET e == [n |-> "pre", ps |-> <<p>>, r |-> m.r, step |-> TRUE, ends |-> TRUE, ok |-> ok, near |-> Seqs({q \in 1..N : q # p /\ spot[q] = x}), rise |-> 0, maxp |-> 16]
    IN Allowed(Conf, m, e) /\ m' = After(Conf, m, e) /\ spot' = [spot EXCEPT ![p] = x] /\ UNCHANGED egs
Eg == \E p \in 1..N : LET e == [n |-> "eg", ps |-> <<p>>, step |-> TRUE, tol |-> TRUE, ends |-> TRUE, rise |-> 0, maxp |-> 16]
    IN Allowed(Conf, m, e) /\ m' = After(Conf, m, e) /\ egs' = egs \union {p} /\ UNCHANGED spot
Meta == \E p \in 1..N : LET e == [n |-> "meta", p |-> p, pre |-> m.ok[p], changed |-> FALSE, time |-> TRUE, maxp |-> 16]
    IN Allowed(Conf, m, e) /\ m' = After(Conf, m, e) /\ UNCHANGED <<spot, egs>>
MNext == Pre \/ Eg \/ Meta
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Bounds == m.r <= R /\ \A p \in 1..N : m.tracked[p] <= R + 1
Tracked == m.ph \notin {"pre"} => \A p \in 1..N : m.tracked[p] >= 1
EndOnlyGood == \A p \in egs : m.ok[p]
AllRun == m.ph \in {"meta", "over"} => egs = {p \in 1..N : m.ok[p]}
\* whoever goes on looking crossed with another has been given every attempt
Tried == m.ph \in {"eg", "meta", "over"} => (Again(Conf, m) # {} => m.r = R)
\* only paths which looked crossed are tracked again
OnlyCrossed == [][\A p \in 1..N : (m'.tracked[p] > m.tracked[p] /\ m.tracked[p] > 0) => p \in m.todo]_mvars
NotStuck == m.ph # "over" => ENABLED MNext
Ends == <>(m.ph = "over")
=============================================================================
