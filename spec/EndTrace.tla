------------------------------ MODULE EndTrace ------------------------------
(* Events recorded from the real endgames, against the machine of EndMachine. *)
EXTENDS EndMachine, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES tr, i, s
tvars == <<tr, i, s>>
TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ s = Start(Traces[tr].c)
TNext == /\ i <= Len(Traces[tr].ev)
         /\ Allowed(Traces[tr].c, s, Traces[tr].ev[i])
         /\ s' = After(Traces[tr].c, s, Traces[tr].ev[i])
         /\ i' = i + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
Accepted == IF i > Len(Traces[tr].ev) THEN s.ph = "over" ELSE Allowed(Traces[tr].c, s, Traces[tr].ev[i])
Report == Accepted \/ PrintT("HIST " \o ToJson([id |-> Traces[tr].id, at |-> i, ph |-> s.ph, s |-> s,
                                    ev |-> IF i <= Len(Traces[tr].ev) THEN Traces[tr].ev[i] ELSE [n |-> "(none)"]]))
=============================================================================
