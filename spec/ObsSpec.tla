------------------------------ MODULE ObsSpec ------------------------------
(* Observers of trackers: who hears which events, over histories in which observers are added to
   and removed from trackers, between tracks and, by other observers or themselves, in the middle
   of an event.

   Every event of a track is heard exactly once by every observer attached; an observer added
   hears every later event, a removed one none (the event during which it is added or removed by
   another observer it may hear or not).  What another observer does, or is, changes nothing.   *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS Sim, MaxOps, NObs, NTrk

VARIABLES ty, kinds,      \* tracker type; what each observer is
          att,            \* tracker -> set of observers attached
          heard,          \* observer -> sequence of what it heard: track, first and last event (0: to the end), and whether either is one uncertain
          plan,           \* what an observer is going to do at one of its events, if anything
          tracks, step, hist
vars == <<ty, kinds, att, heard, plan, tracks, step, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Obs == 1..NObs
Trk == 1..NTrk
NoPlan == [who |-> 0, j |-> 0, rem |-> 0, add |-> 0]
Kinds(t) == {"count", "precacc"} \union (IF t = "amp" THEN {"path", "first", "minmax"} ELSE {})
Firsts == {o \in Obs : kinds[o] = "first"}      \* they stop listening at the first rise of precision: attached for one track at a time

Tick == step' = step + 1
Log(r) == hist' = Append(hist, r)
Skip == Tick /\ UNCHANGED <<ty, kinds, att, heard, plan, tracks, hist>>

AddO == \E k \in Pick(Trk), o \in Pick(Obs) :
    /\ att' = [att EXCEPT ![k] = @ \union {o}]
    /\ Log([o |-> "add", trk |-> k, obs |-> o]) /\ Tick /\ UNCHANGED <<ty, kinds, heard, plan, tracks>>
AddFirst == IF Firsts = {} THEN AddO ELSE \E k \in Pick(Trk), o \in Pick(Firsts) :
    /\ att' = [att EXCEPT ![k] = @ \union {o}]
    /\ Log([o |-> "add", trk |-> k, obs |-> o]) /\ Tick /\ UNCHANGED <<ty, kinds, heard, plan, tracks>>
RemO == \E k \in Pick(Trk), o \in Pick(Obs) :
    /\ att' = [att EXCEPT ![k] = @ \ {o}]
    /\ Log([o |-> "rem", trk |-> k, obs |-> o]) /\ Tick /\ UNCHANGED <<ty, kinds, heard, plan, tracks>>
Arm == \E w \in Pick({x \in Obs : kinds[x] = "count"}), j \in Pick(IF Sim THEN 1..12 ELSE {1, 4}), r \in Pick({0} \union Obs) : \E a \in Pick(({0} \union Obs) \ ({r} \union Firsts)) :
    IF plan # NoPlan \/ (r = 0 /\ a = 0) THEN Sim /\ Skip
    ELSE /\ plan' = [who |-> w, j |-> j, rem |-> r, add |-> a]
         /\ Log([o |-> "arm", who |-> w, j |-> j, rem |-> r, add |-> a]) /\ Tick /\ UNCHANGED <<ty, kinds, att, heard, tracks>>

Seg(t, a, b, ua, ub) == [t |-> t, a |-> a, b |-> b, ua |-> ua, ub |-> ub]
Track == \E k \in Pick(Trk), tight \in (IF ty = "amp" THEN Pick(BOOLEAN) ELSE {FALSE}) :
    LET n == tracks + 1
        fires == plan # NoPlan /\ plan.who \in att[k]
        out == IF fires /\ plan.rem \in att[k] THEN {plan.rem} ELSE {}
        in == IF fires /\ plan.add \in Obs /\ plan.add \notin att[k] THEN {plan.add} ELSE {}
        h == [o \in Obs |->
                IF o \in out THEN Append(heard[o], Seg(n, 1, plan.j, FALSE, o # plan.who))
                ELSE IF o \in in THEN Append(heard[o], Seg(n, plan.j + 1, 0, TRUE, FALSE))
                ELSE IF o \in att[k] THEN Append(heard[o], Seg(n, 1, 0, FALSE, FALSE))
                ELSE heard[o]]
    IN /\ att' = [j \in Trk |-> (IF j = k THEN (att[k] \ out) \union in ELSE att[j]) \ Firsts]
       /\ heard' = h /\ tracks' = n /\ plan' = NoPlan
       /\ Log([o |-> "track", trk |-> k, n |-> n, tight |-> tight, heard |-> h]) /\ Tick /\ UNCHANGED <<ty, kinds>>

Finished == step >= MaxOps
Init == /\ ty = "" /\ kinds = [o \in Obs |-> "count"]
        /\ att = [k \in Trk |-> {}] /\ heard = [o \in Obs |-> <<>>] /\ plan = NoPlan /\ tracks = 0 /\ step = 0 /\ hist = <<>>
\* (not in Init, which is evaluated once for all random behaviours)
Begin == \E i \in Pick(IF Sim THEN 1..5 ELSE {1, 3}) : LET t == <<"dbl", "mp", "amp", "amp", "amp">>[i] IN
    \E ks \in {TLCEval([o \in Obs |-> IF o <= 2 THEN "count" ELSE IF Sim THEN RandomElement(Kinds(t)) ELSE "precacc"])} :
        /\ ty' = t /\ kinds' = ks /\ hist' = <<[o |-> "begin", ty |-> t, kinds |-> ks, ntrk |-> NTrk]>>
        /\ UNCHANGED <<att, heard, plan, tracks, step>>
Next == IF Finished THEN FALSE
        ELSE IF ty = "" THEN Begin
        ELSE IF ~Sim THEN AddO \/ RemO \/ Arm \/ Track
        ELSE \E k \in {RandomElement(1..13)} : CASE k <= 3 -> AddO [] k = 4 -> RemO [] k <= 6 -> Arm [] k <= 8 -> AddFirst [] OTHER -> Track
Spec == Init /\ [][Next]_vars

\* nobody hears a track twice, or anything of a track that was not made
Once == \A o \in Obs : \A i, j \in 1..Len(heard[o]) : heard[o][i].t <= tracks /\ (heard[o][i].t = heard[o][j].t => i = j)
\* an observer attached nowhere hears nothing unless someone adds it
Quiet == [][\A o \in Obs : (o \notin UNION {att[k] : k \in Trk} /\ plan.add # o) => heard'[o] = heard[o]]_vars
Emit == Finished /\ (Sim \/ hist[Len(hist)].o = "track") => PrintT("HIST " \o ToJson(hist))
=============================================================================
