------------------------------ MODULE LinSpec ------------------------------
(* Patches and linear slices: the linear equations a System is cut with.

   An object has a coefficient identity (a token: the coefficients are random, so the
   specification says which objects must have the same ones and how they enter the values),
   a shape and a working precision.  Whatever was done to it and to others, its values at a
   point x are   A x - 1   (patch, A block diagonal: one block for each group)   or
   A x + c  (slice, c = 0 when homogeneous), its Jacobian is A, correct to the working
   precision and of that precision, and rescaling a point to a patch divides each group's
   coordinates by that group's A x.                                                     *)
EXTENDS GRat, FiniteSets, Json, SequencesExt, TLC

CONSTANTS Sim, MaxOps

VARIABLES objs,   \* sequence of [kind, tok, shape, prec]
          dprec, toks, step, hist
vars == <<objs, dprec, toks, step, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Precs == IF Sim THEN {17, 20, 30, 50, 80, 120} ELSE {20, 50}

PatchShapes == IF Sim THEN {<<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<4, 2>>, <<2, 2, 2>>, <<3, 1>>} ELSE {<<2>>, <<2, 3>>}
SliceShapes == {[dim |-> d, n |-> n, hom |-> h, orth |-> o] :
                  d \in (IF Sim THEN 1..4 ELSE {1, 2}), n \in (IF Sim THEN 1..4 ELSE {2}), h \in BOOLEAN, o \in BOOLEAN}

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
NVars(o) == IF o.kind = "patch" THEN SumSeq(o.shape) ELSE o.shape.n
Coords == {C0, C1, Zi(-2), Q(1, 3), Q(5, 4), CI, <<2, -1, 3>>}
Points(n) == IF Sim THEN {TLCEval([i \in 1..n |-> RandomElement(Coords)])}
             ELSE {[i \in 1..n |-> <<Q(1, 3), Zi(-2), <<2, -1, 3>>, C1, Q(5, 4)>>[i]]}

Tick == step' = step + 1
Log(r) == hist' = Append(hist, r)
Skip == Tick /\ UNCHANGED <<objs, dprec, toks, hist>>

\* ------------------------------------------------------------ transitions
MakePatch == \E sh \in Pick(PatchShapes), real \in Pick(BOOLEAN) :
    /\ toks' = toks + 1
    /\ objs' = Append(objs, [kind |-> "patch", tok |-> toks + 1, shape |-> sh, prec |-> dprec])
    /\ Log([o |-> "pmake", id |-> Len(objs) + 1, sh |-> sh, real |-> real, tok |-> toks + 1, prec |-> dprec])
    /\ Tick /\ UNCHANGED dprec
MakeSlice == \E sh \in Pick(SliceShapes), real \in Pick(BOOLEAN) :
    /\ toks' = toks + 1
    /\ objs' = Append(objs, [kind |-> "slice", tok |-> toks + 1, shape |-> sh, prec |-> dprec])
    /\ Log([o |-> "slmake", id |-> Len(objs) + 1, sh |-> sh, real |-> real, tok |-> toks + 1, prec |-> dprec])
    /\ Tick /\ UNCHANGED dprec
Some(A(_)) == IF objs = <<>> THEN Skip ELSE \E i \in Pick(1..Len(objs)) : A(i)
\* a copy has the coefficients of the original; at which precision it starts is left open (it is read back)
Copy == LET A(i) == \E how \in Pick({"copy", "assign", "ser"}) :
             /\ objs' = Append(objs, objs[i])
             /\ Log([o |-> "copy", id |-> Len(objs) + 1, of |-> i, how |-> how, kind |-> objs[i].kind])
             /\ Tick /\ UNCHANGED <<dprec, toks>>
        IN IF Len(objs) >= 5 THEN Skip ELSE Some(A)
SetPrec == LET A(i) == \E p \in Pick(Precs) :
             /\ objs' = [objs EXCEPT ![i].prec = p]
             /\ Log([o |-> "setprec", id |-> i, p |-> p, kind |-> objs[i].kind])
             /\ Tick /\ UNCHANGED <<dprec, toks>>
        IN Some(A)
Default == \E p \in Pick(Precs) : dprec' = p /\ Log([o |-> "default", p |-> p]) /\ Tick /\ UNCHANGED <<objs, toks>>
Observe == LET A(i) == \E ty \in Pick({"dbl", "mp"}), w \in Pick({"eval", "evalip", "jac", "jacip"} \union (IF objs[i].kind = "patch" THEN {"resc"} ELSE {})),
                          x \in Points(NVars(objs[i])) :
             /\ Log([o |-> "obs", id |-> i, ty |-> ty, w |-> w, x |-> x, kind |-> objs[i].kind])
             /\ Tick /\ UNCHANGED <<objs, dprec, toks>>
        IN Some(A)
\* equality of patches is equality of coefficients
Equal == LET P == {i \in 1..Len(objs) : objs[i].kind = "patch"}
         IN IF P = {} THEN Skip
            ELSE \E i \in Pick(P), j \in Pick(P) :
                 /\ Log([o |-> "equal", i |-> i, j |-> j, eq |-> objs[i].tok = objs[j].tok])
                 /\ Tick /\ UNCHANGED <<objs, dprec, toks>>

Finished == step >= MaxOps
Init == objs = <<>> /\ dprec = 30 /\ toks = 0 /\ step = 0 /\ hist = <<>>
Make == MakePatch \/ MakeSlice
Next == IF Finished THEN FALSE
        ELSE IF objs = <<>> THEN IF Sim THEN (\E k \in {RandomElement(1..3)} : CASE k = 1 -> MakePatch [] k = 2 -> MakeSlice [] OTHER -> Default)
                                 ELSE Make
        ELSE IF ~Sim THEN Copy \/ SetPrec \/ Default \/ Observe \/ Equal
        ELSE \E k \in {RandomElement(1..20)} :
             CASE k = 1 -> IF Len(objs) < 4 THEN MakePatch ELSE Skip
               [] k = 2 -> IF Len(objs) < 4 THEN MakeSlice ELSE Skip
               [] k \in {3, 4} -> Copy [] k \in {5, 6, 7, 8} -> SetPrec [] k = 9 -> Default [] k \in {10, 11} -> Equal [] OTHER -> Observe
Spec == Init /\ [][Next]_vars

\* objects with the same coefficients have the same shape, and shapes fit
TypeOK == \A i, j \in 1..Len(objs) : objs[i].tok = objs[j].tok => objs[i].shape = objs[j].shape /\ objs[i].kind = objs[j].kind
Emit == Finished => PrintT("HIST " \o ToJson(hist))
=============================================================================
