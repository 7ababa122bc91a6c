----------------------------- MODULE TrackTrace -----------------------------
(* Events recorded from the real trackers, against the machine of TrackMachine: every recorded
   track must be a behaviour of the machine.  A track of which some event is not allowed where
   it happened is reported.                                                                *)
EXTENDS TrackMachine, Json
CONSTANT File
Traces == JsonDeserialize(File)
VARIABLES tr, i, s
tvars == <<tr, i, s>>
TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ s = Start(Traces[tr].c)
TNext == /\ i <= Len(Traces[tr].ev)
         /\ Allowed(Traces[tr].c, s, Traces[tr].ev[i])
         /\ s' = After(Traces[tr].c, s, Traces[tr].ev[i])
         /\ i' = i + 1 /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_tvars
\* the events run out only after the machine has ended, and everything before is allowed
Accepted == IF i > Len(Traces[tr].ev) THEN s.ph = "ended" ELSE Allowed(Traces[tr].c, s, Traces[tr].ev[i])
Report == Accepted \/ PrintT("HIST " \o ToJson([id |-> Traces[tr].id, at |-> i, ph |-> s.ph, s |-> s,
                                    ev |-> IF i <= Len(Traces[tr].ev) THEN Traces[tr].ev[i] ELSE [n |-> "(none)"]]))
=============================================================================
