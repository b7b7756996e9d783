------------------------------- MODULE T_Sim -------------------------------
(***************************************************************************)
(* Trace specification of a pylbm simulation.  Each line of the trace file *)
(* is a case: a configuration and the sequence of calls made on a real     *)
(* Simulation, each with the distributions (and the moments, for reads)    *)
(* observed after the call.  The state machine below has one action per    *)
(* kind of call; the successor state is computed by the LBM specification  *)
(* and compared with the observation clause by clause.  What a call leaves *)
(* unspecified (ghost points, points in obstacles) is taken from the       *)
(* observation.  Verdicts are total: a case stops at its first failing     *)
(* call, whose failing clauses are printed.                                *)
(***************************************************************************)
EXTENDS LBM, Verdict, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  ic,     \* current case
  ie,     \* next event (0: load the configuration)
  tb,     \* lattice tables of the case
  sc,     \* sparse moment matrix and inverse
  F,      \* distributions
  m,      \* moments as last defined
  sync,   \* "F": the distributions were changed last, moments follow from them
          \* "m": the moments were defined last
  nt      \* number of completed steps
vars == <<ic, ie, tb, sc, F, m, sync, nt>>

Case == Cases[ic]
c == Case.cfg
Ev == Case.evs[ie]
Cells == 1..tb.nc
Dist == 1..Q(c)

Clamp(v) == IF v > c.bnd \/ v < -c.bnd THEN 0 ELSE v
ClampF(G) == TLCEval([k \in Dist |-> TLCEval([p \in Cells |-> Clamp(G[k][p])])])

\* current moments, as a reader must see them
Mom == IF sync = "F" THEN ToMoments(c, tb, sc, F) ELSE m

\* time (scaled as a fraction) at step n
TimeAt(n) == << n * c.dt[1], c.dt[2] >>

(***************************************************************************)
(* Comparison of an expected field with the observation, on fluid points   *)
(***************************************************************************)
DiffF(E, G) == {k \in Dist : \E p \in Cells : tb.fluid[p] /\ E[k][p] # G[k][p]}
\* keep the specification on fluid points, the observation elsewhere
Merge(E, G) == TLCEval([k \in Dist |-> TLCEval([p \in Cells |-> IF tb.fluid[p] THEN E[k][p] ELSE Clamp(G[k][p])])])

\* refreshed by the last boundary condition: ghosts valid for streaming
BCBad(F0, G, t) ==
  {<<k, g>> \in Dist \X Cells :
     /\ \/ tb.fluid[g]
        \/ tb.fwd[k][g] # 0 /\ tb.fluid[tb.fwd[k][g]]
     /\ LET A == BCAcc(c, tb, sc, F0, k, g, t) IN A # {} /\ G[k][g] \notin A}
\* F before streaming when the ghosts are not observed (whole steps)
AfterBC(F0, t) ==
  TLCEval([k \in Dist |-> TLCEval([g \in Cells |->
    LET A == BCAcc(c, tb, sc, F0, k, g, t) IN
    IF A = {} THEN F0[k][g]
    ELSE CHOOSE v \in A : TRUE])])
\* the same with the known deviation of the Bouzidi anti bounce-back (known
\* finding bouzidi-antibb-sign), and the links it concerns
KnownLinks(F0, t) == {e \in Dist \X Cells : BCKnown(c, tb, sc, F0, e[1], e[2], t) # {}}
AfterBCKnown(F1, kn, F0, t) ==
  TLCEval([k \in Dist |-> TLCEval([g \in Cells |->
       IF <<k, g>> \in kn THEN CHOOSE v \in BCKnown(c, tb, sc, F0, k, g, t) : TRUE ELSE F1[k][g]])])
AnyFree == \E k \in Dist, g \in Cells :
             tb.wall[k][g].wall /\ (Cardinality(tb.wall[k][g].labs) > 1
               \/ BCAcc(c, tb, sc, F, k, g, TimeAt(nt)) = {})

Relax(mm) == IF "rel" \in DOMAIN c THEN RelRelaxation(c, tb, sc, mm) ELSE Relaxation(c, tb, mm)
StepFrom(F1, g, t) ==
  LET F2 == Transport(c, tb, F1, g)
      m0 == ToMoments(c, tb, sc, F2)
      m1 == HalfSource(c, tb, m0, t)
      m2 == Relax(m1)
      m3 == HalfSource(c, tb, m2, t)
  IN ToDistrib(c, tb, sc, m3)

Fail(S) == \A x \in S : Say(<<"FAIL", Case.id, ie, x>>)

NextCase == /\ ic' = ic + 1 /\ ie' = 0
            /\ tb' = <<>> /\ sc' = <<>> /\ F' = <<>> /\ m' = <<>> /\ sync' = "F" /\ nt' = 0

Advance == /\ ie' = ie + 1 /\ UNCHANGED <<ic, tb, sc>>

Load ==
  /\ ie = 0
  /\ Say(<<"CASE", Case.id>>)
  /\ TLCSet(InexactReg, 0)
  /\ IF CfgOK(c)
     THEN /\ tb' = Tables(c) /\ sc' = Scheme(c) /\ ie' = 1
          /\ F' = <<>> /\ m' = <<>> /\ sync' = "F" /\ nt' = 0
          /\ UNCHANGED ic
     ELSE /\ Say(<<"CFGBAD", Case.id>>) /\ NextCase

(***************************************************************************)
(* Conserved totals, evaluated on the observations themselves              *)
(***************************************************************************)
Total(G, i) == SumCells([p \in Cells |-> Dot(sc.M[i], G, p)], tb.fluid, tb.nc)
ConsBad(G) == IF Ev.op # "step" THEN {}
              ELSE {i \in {c.cons[x] : x \in 1..Len(c.cons)} : Total(F, i) # Total(G, i)}

(***************************************************************************)
(* The same call on other process grids shows the same values              *)
(***************************************************************************)
SplitBad ==
  IF "alt" \notin DOMAIN Ev THEN {}
  ELSE UNION {LET a == Ev.alt[j]
                  \* after the boundary condition, also what fluid cells will pull
                  seen(k, p) == tb.fluid[p] \/ (Ev.op = "bc" /\ tb.fwd[k][p] # 0 /\ tb.fluid[tb.fwd[k][p]])
                  dif == {k \in Dist : \E p \in Cells : seen(k, p) /\ a.F[k][p] # Ev.F[k][p]}
              IN {<<"split-F", a.grid, k>> : k \in dif}
                 \cup (IF Ev.op = "read" /\ \E p \in Cells : tb.fluid[p] /\ a.halo[p] # Ev.halo[p] THEN {<<"split-read", a.grid>>} ELSE {})
                 \cup (IF Ev.op = "step" /\ (a.nt # Ev.nt \/ a.t # Ev.t) THEN {<<"split-time", a.grid>>} ELSE {})
              : j \in 1..Len(Ev.alt)}

(***************************************************************************)
(* One event.  Conclude takes the failing clauses and the successor state. *)
(***************************************************************************)
Conclude(bad00, F2a, m2a, sy, n2) ==
  \E bad \in {TLCEval(bad00 \cup SplitBad)} :
  \E F2 \in {F2a} :
  \E m2 \in {m2a} :
  IF Cardinality(bad) >= 0 /\ Len(F2) >= 0 /\ Len(m2) >= 0 /\ TLCGet(InexactReg) = 1
  THEN Say(<<"INEXACT", Case.id, ie>>) /\ NextCase
  ELSE IF bad # {}
  THEN Fail(bad) /\ NextCase
  ELSE /\ Advance /\ F' = F2 /\ m' = m2 /\ sync' = sy /\ nt' = n2

Lab(pre, K) == {<<pre, k>> : k \in K}

\* initial conditions of a new simulation: affine functions of the position
Affine(a, p) == a.c0 * c.D + AtPoint(c, a.cx, p)
InitRow(i) == LET as == SelectSeq(Ev.rows, LAMBDA a : a.i = i) IN
  [p \in Cells |-> IF Len(as) = 0 THEN 0 ELSE Affine(as[1], p)]

New ==
  /\ Ev.op = "new"
  /\ \E raw \in {IF Ev.kind = "any" THEN <<>> ELSE TLCEval([i \in Dist |-> TLCEval(InitRow(i))])} :
     \E m1 \in {IF Ev.kind # "moments" THEN <<>> ELSE Equilibrium(c, tb, raw)} :
     \E G \in {Ev.F} :
     \E E \in {IF Ev.kind = "moments" THEN ToDistrib(c, tb, sc, m1)
              ELSE IF Ev.kind = "distributions" THEN raw
              ELSE ClampF(G)} :
        Conclude(Lab("init", DiffF(E, G)), Merge(E, G), IF Ev.kind = "moments" THEN m1 ELSE <<>>,
                 IF Ev.kind = "moments" THEN "m" ELSE "F", IF Ev.kind = "any" THEN nt ELSE 0)

SetF ==
  /\ Ev.op = "setF"
  /\ \E G \in {Ev.F} :
     \E E \in {TLCEval([k \in Dist |-> IF k = Ev.k THEN Ev.val ELSE F[k]])} :
        Conclude(Lab("setF", DiffF(E, G)), Merge(E, G), m, "F", nt)

SetM ==
  /\ Ev.op = "setM"
  /\ \E m0 \in {Mom} :
     \E E \in {TLCEval([k \in Dist |-> IF k = Ev.i THEN Ev.val ELSE m0[k]])} :
        Conclude(Lab("setM-F", DiffF(F, Ev.F)), Merge(F, Ev.F), E, "m", nt)

ReadM ==
  /\ Ev.op = "read"
  /\ \E E \in {Mom} :
     \E row \in {E[Ev.i]} :
     \E inn \in {SelectSeq([p \in Cells |-> p], LAMBDA p : tb.inbox[p])} :
     LET badh == \E p \in Cells : tb.fluid[p] /\ Ev.halo[p] # row[p]
         badi == Len(Ev.inn) # Len(inn) \/ \E q \in 1..Len(inn) : tb.fluid[inn[q]] /\ Ev.inn[q] # row[inn[q]]
         agree == Len(Ev.inn) = Len(inn) /\ \A q \in 1..Len(inn) : Ev.inn[q] = Ev.halo[inn[q]]
     IN Conclude((IF badh THEN {<<"read-halo", Ev.i>>} ELSE {})
                 \cup (IF badi THEN {<<"read", Ev.i>>} ELSE {})
                 \cup (IF agree THEN {} ELSE {<<"read-agree", Ev.i>>})
                 \cup Lab("read-F", DiffF(F, Ev.F)),
                 Merge(F, Ev.F), E, "m", nt)

F2MOp ==
  /\ Ev.op = "f2m"
  /\ Conclude(Lab("f2m-F", DiffF(F, Ev.F)), Merge(F, Ev.F), ToMoments(c, tb, sc, F), "m", nt)

MPhase(name, E0) ==
  /\ Ev.op = name
  /\ \E E \in {E0} : Conclude(Lab(name \o "-F", DiffF(F, Ev.F)), Merge(F, Ev.F), E, "m", nt)

M2FOp ==
  /\ Ev.op = "m2f"
  /\ \E m0 \in {Mom} : \E E \in {ToDistrib(c, tb, sc, m0)} :
        Conclude(Lab("m2f", DiffF(E, Ev.F)), Merge(E, Ev.F), m0, "m", nt)

BCOp ==
  /\ Ev.op = "bc"
  /\ \E F0 \in {Refresh(c, tb, F)} :
     \E F0s \in {TLCEval([k \in Dist |-> TLCEval([p \in Cells |-> IF tb.inbox[p] THEN F[k][p] ELSE F0[k][p]])])} :
     \E t0 \in {TimeAt(nt)} :
     \E bad \in {BCBad(F0s, Ev.F, t0)} :
     \E kn \in {{e \in bad : Ev.F[e[1]][e[2]] \in BCKnown(c, tb, sc, F0s, e[1], e[2], t0)}} :
        /\ (IF kn # {} /\ TLCGet(InexactReg) = 0 THEN Say(<<"KNOWN", Case.id, ie, "bouzidi-antibb-sign">>) ELSE TRUE)
        /\ Conclude({<<"bc", e>> : e \in bad \ kn}, ClampF(Ev.F), m, "F", nt)

TransportOp ==
  /\ Ev.op = "transport"
  /\ \E E \in {Transport(c, tb, F, Ev.F)} :
        Conclude(Lab("transport", DiffF(E, Ev.F)), Merge(E, Ev.F), m, "F", nt)

StepOp ==
  /\ Ev.op = "step"
  /\ \E t0 \in {TimeAt(nt)} :
     \E F0 \in {TLCEval([k \in Dist |-> TLCEval([p \in Cells |-> F[k][tb.wrap[p]]])])} :
     \E FB \in {AfterBC(F0, t0)} :
     \E free \in {AnyFree} :
     \E E1 \in {StepFrom(FB, Ev.F, t0)} :
     \E bad1 \in {IF free THEN {} ELSE Lab("step", DiffF(E1, Ev.F))} :
     \E kn \in {IF bad1 = {} THEN {} ELSE KnownLinks(F0, t0)} :
     \E E2 \in {IF kn = {} THEN E1 ELSE StepFrom(AfterBCKnown(FB, kn, F0, t0), Ev.F, t0)} :
     \E G \in {Ev.F} :
     \E isk \in {bad1 # {} /\ DiffF(E2, G) = {}} :
     LET badF == IF isk THEN {} ELSE bad1
         badT == (IF Ev.nt # nt + 1 THEN {<<"step-nt", Ev.nt>>} ELSE {})
                 \cup (IF Ev.t # ((c.tscale * (nt + 1) * c.dt[1]) \div c.dt[2]) THEN {<<"step-t", Ev.t>>} ELSE {})
     IN /\ (IF isk /\ TLCGet(InexactReg) = 0 THEN Say(<<"KNOWN", Case.id, ie, "bouzidi-antibb-sign">>) ELSE TRUE)
        /\ Conclude(badF \cup badT \cup Lab("conserve", ConsBad(G)),
                 IF free THEN ClampF(G) ELSE Merge(IF isk THEN E2 ELSE E1, G), m, "F", nt + 1)

\* a simulation built without initialisation: the first step must install it
Virtual ==
  /\ Ev.op = "virtual"
  /\ \E m1 \in {Equilibrium(c, tb, TLCEval([i \in Dist |-> TLCEval(InitRow(i))]))} :
        Conclude({}, ToDistrib(c, tb, sc, m1), <<>>, "F", 0)

\* the dictionary given by the user, described before and after
DictOp ==
  /\ Ev.op = "dict"
  /\ Conclude({<<"dict", x>> : x \in {Ev.before[j] : j \in 1..Len(Ev.before)} \ {Ev.after[j] : j \in 1..Len(Ev.after)}}
              \cup {<<"dict-new", x>> : x \in {Ev.after[j] : j \in 1..Len(Ev.after)} \ {Ev.before[j] : j \in 1..Len(Ev.before)}}
              \cup (IF Ev.before = Ev.after THEN {} ELSE {<<"dict-order">>}), F, m, sync, nt)

(***************************************************************************)
(* Phases applied to arrays of the user: Ev.val before the call, Ev.res    *)
(* after it.  Only the fields which were not given by the user change.     *)
(***************************************************************************)
UserRes(E0) == UNION {{<<"user-result", k>> : k \in DiffF(E, Ev.res)} : E \in {E0}}
UserOp ==
  /\ Ev.op = "user"
  /\ \E V \in {Ev.val} :
     \E keep \in {Lab("user-F", DiffF(F, Ev.F))} :
        \/ /\ Ev.call = "f2m-m"                 \* moments of F written in the user's array
           /\ Conclude(UserRes(ToMoments(c, tb, sc, F)) \cup keep, Merge(F, Ev.F), m, sync, nt)
        \/ /\ Ev.call = "f2m-f"                 \* the moments become those of the user's distributions
           /\ Conclude(UserRes(V) \cup keep, Merge(F, Ev.F), ToMoments(c, tb, sc, V), "m", nt)
        \/ /\ Ev.call = "m2f-m"                 \* the distributions become those of the user's moments
           /\ \E E \in {ToDistrib(c, tb, sc, V)} :
                 Conclude(UserRes(V) \cup Lab("user-m2f", DiffF(E, Ev.F)), Merge(E, Ev.F), m, "F", nt)
        \/ /\ Ev.call = "m2f-f"                 \* distributions of the moments written in the user's array
           /\ Conclude(UserRes(ToDistrib(c, tb, sc, Mom)) \cup keep, Merge(F, Ev.F), Mom, "m", nt)
        \/ /\ Ev.call = "relaxation"
           /\ Conclude(UserRes(Relax(V)) \cup keep, Merge(F, Ev.F), m, sync, nt)
        \/ /\ Ev.call = "equilibrium"
           /\ Conclude(UserRes(Equilibrium(c, tb, V)) \cup keep, Merge(F, Ev.F), m, sync, nt)
        \/ /\ Ev.call = "source"
           /\ Conclude(UserRes(HalfSource(c, tb, V, TimeAt(nt))) \cup keep, Merge(F, Ev.F), m, sync, nt)

RaiseOp ==
  /\ Ev.op = "raise"
  /\ Conclude({<<"exception", Ev.msg>>}, F, m, sync, nt)

Event ==
  /\ ie > 0 /\ ie <= Len(Case.evs)
  /\ \/ New \/ SetF \/ SetM \/ ReadM \/ F2MOp \/ M2FOp \/ BCOp \/ TransportOp \/ StepOp \/ Virtual \/ DictOp \/ UserOp \/ RaiseOp
     \/ MPhase("relaxation", Relax(Mom))
     \/ MPhase("equilibrium", Equilibrium(c, tb, Mom))
     \/ MPhase("source", HalfSource(c, tb, Mom, TimeAt(nt)))

EndCase == ie > 0 /\ ie > Len(Case.evs) /\ NextCase

Init == ic = 1 /\ ie = 0 /\ tb = <<>> /\ sc = <<>> /\ F = <<>> /\ m = <<>> /\ sync = "F" /\ nt = 0
Next == ic <= Len(Cases) /\ (Load \/ Event \/ EndCase)
Spec == Init /\ [][Next]_vars
View == <<ic, ie>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
