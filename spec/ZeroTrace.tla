------------------------------ MODULE ZeroTrace ------------------------------
(* Tracks recorded from real zero-dimensional solves, against the machine of ZeroMachine. *)
EXTENDS ZeroMachine, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES tr, i, s
tvars == <<tr, i, s>>
C(k) == [n |-> Traces[k].c.n, R |-> Traces[k].c.R, same |-> {{Traces[k].c.same[j][1], Traces[k].c.same[j][2]} : j \in 1..Len(Traces[k].c.same)}]
TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ s = Start(C(tr))
TNext == /\ i <= Len(Traces[tr].ev)
         /\ Allowed(C(tr), s, Traces[tr].ev[i])
         /\ s' = After(C(tr), s, Traces[tr].ev[i])
         /\ i' = i + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Accepted == IF i > Len(Traces[tr].ev) THEN s.ph = "over" ELSE Allowed(C(tr), s, Traces[tr].ev[i])
Report == Accepted \/ PrintT("HIST " \o ToJson([id |-> Traces[tr].id, at |-> i, ph |-> s.ph, s |-> [i |-> s.i, r |-> s.r, todo |-> s.todo],
                                    ev |-> IF i <= Len(Traces[tr].ev) THEN Traces[tr].ev[i] ELSE [n |-> "(none)"]]))
=============================================================================
