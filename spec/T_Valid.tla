------------------------------- MODULE T_Valid -------------------------------
(***************************************************************************)
(* The dictionaries which describe a problem.  A node of a dictionary is a *)
(* record with the kind of the value t, its text s and integer n (leaves), *)
(* or its elements e (a sequence of nodes, or of entries [k, v]).          *)
(* WellFormed(name, d) is the documented form of the dictionary given to   *)
(* the class name; the trace has, for each dictionary given to a class,    *)
(* whether it was refused by the validation, and whether it was changed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Verdict, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ic, ie
vars == <<ic, ie>>
Case == Cases[ic]
Ev == Case.evs[ie]
----------------------------------------------------------------------------
IsInt(x)   == x.t = "int"
IsNat(x)   == x.t = "int" /\ x.n >= 0
IsNum(x)   == x.t \in {"int", "float"}
IsBool(x)  == x.t = "bool"
IsSym(x)   == x.t = "symbol"
IsExpr(x)  == x.t \in {"symbol", "expr"}
IsValue(x) == IsNum(x) \/ IsExpr(x)
IsFun(x)   == x.t = "function"
IsText(x)  == x.t = "str"
Among(x, S) == IsText(x) /\ x.s \in S
IsList(x)  == x.t = "list"
IsDict(x)  == x.t = "dict"
ListOf(x, P(_)) == IsList(x) /\ \A i \in 1..Len(x.e) : P(x.e[i])
DictOf(x, K(_), V(_)) == IsDict(x) /\ \A i \in 1..Len(x.e) : K(x.e[i].k) /\ V(x.e[i].v)
\* a dictionary whose keys are names: V(name, value)
Record(x, V(_, _)) == IsDict(x) /\ \A i \in 1..Len(x.e) : IsText(x.e[i].k) /\ V(x.e[i].k.s, x.e[i].v)
Has(x, key) == \E i \in 1..Len(x.e) : x.e[i].k.t = "str" /\ x.e[i].k.s = key
----------------------------------------------------------------------------
FunctionAndArguments(x) == IsList(x) /\ Len(x.e) = 2 /\ IsFun(x.e[1]) /\ IsList(x.e[2])
Interval(x) == IsList(x) /\ Len(x.e) = 2 /\ IsNum(x.e[1]) /\ IsNum(x.e[2])
Box(x) ==
  /\ Record(x, LAMBDA k, v : CASE k \in {"x", "y", "z"} -> Interval(v)
                               [] k = "label" -> IsInt(v) \/ ListOf(v, IsInt)
                               [] OTHER -> FALSE)
  /\ Has(x, "x") /\ (Has(x, "z") => Has(x, "y"))
OneScheme(name, x) ==
  /\ Record(x, LAMBDA k, v :
       CASE k = "velocities" -> ListOf(v, IsNat)
         [] k = "M" -> v.t = "matrix"
         [] k \in {"polynomials", "relaxation_parameters", "equilibrium"} -> ListOf(v, IsValue)
         [] k = "feq" -> FunctionAndArguments(v)
         [] k = "conserved_moments" -> IsSym(v) \/ ListOf(v, IsSym)
         [] k = "source_terms" -> DictOf(v, IsSym, IsValue)
         [] OTHER -> FALSE)
  /\ ~(Has(x, "M") /\ Has(x, "polynomials")) /\ ~(Has(x, "feq") /\ Has(x, "equilibrium"))
  /\ name \in {"Stencil", "Domain", "Scheme", "Simulation"} => Has(x, "velocities")
  /\ name \in {"Scheme", "Simulation"} =>
       /\ Has(x, "M") \/ Has(x, "polynomials")
       /\ Has(x, "feq") \/ Has(x, "equilibrium")
       /\ Has(x, "relaxation_parameters") /\ Has(x, "conserved_moments")
OneBoundary(x) ==
  /\ Record(x, LAMBDA k, v :
       CASE k = "method" -> DictOf(v, IsInt, LAMBDA m : m.t = "method")
         [] k = "value" -> IsFun(v) \/ FunctionAndArguments(v)
                           \/ (IsList(v) /\ Len(v.e) = 2 /\ IsFun(v.e[1]) /\ v.e[2].t = "none")
         [] k = "time_bc" -> IsBool(v) \/ v.t = "none"
         [] OTHER -> FALSE)
  /\ Has(x, "method")
WellFormed(name, x) ==
  /\ Record(x, LAMBDA k, v :
       CASE k = "dim" -> IsInt(v) /\ v.n \in 1..3
         [] k = "box" -> Box(v)
         [] k = "elements" -> ListOf(v, LAMBDA y : y.t = "element")
         [] k = "space_step" -> IsNum(v) /\ v.n >= 0
         [] k = "scheme_velocity" -> IsNum(v) \/ IsSym(v)
         [] k = "schemes" -> ListOf(v, LAMBDA y : OneScheme(name, y))
         [] k = "parameters" -> DictOf(v, LAMBDA y : IsSym(y) \/ Among(y, {"time", "space_x", "space_y", "space_z"}), IsValue)
         [] k = "inittype" -> Among(v, {"moments", "distributions"})
         [] k = "init" -> DictOf(v, LAMBDA y : IsSym(y) \/ IsNum(y), LAMBDA y : IsNum(y) \/ IsFun(y) \/ FunctionAndArguments(y))
         [] k = "boundary_conditions" -> DictOf(v, IsInt, OneBoundary)
         [] k = "relative_velocity" -> ListOf(v, IsValue)
         [] k = "generator" -> Among(v, {"numpy", "cython", "loopy"})
         [] k = "codegen_option" -> /\ Record(v, LAMBDA a, b : CASE a = "directory" -> IsText(b) [] a = "generate" -> IsBool(b) [] OTHER -> FALSE)
                                    /\ Has(v, "directory")
         [] k = "lbm_algorithm" -> Record(v, LAMBDA a, b : CASE a = "name" -> b.t = "algorithm" [] a = "settings" -> IsDict(b) [] OTHER -> FALSE)
         [] k = "show_code" -> IsBool(v)
         [] OTHER -> FALSE)
  /\ ~(Has(x, "dim") /\ Has(x, "box"))
  /\ IF name \in {"Stencil", "Scheme"} THEN Has(x, "dim") \/ Has(x, "box") ELSE Has(x, "box")
  /\ name \in {"Domain", "Simulation"} => Has(x, "space_step")
  /\ name \in {"Stencil", "Domain", "Scheme", "Simulation"} => Has(x, "schemes")
  /\ name \in {"Scheme", "Simulation"} => Has(x, "scheme_velocity")
  /\ name = "Simulation" => Has(x, "init")
----------------------------------------------------------------------------
(***************************************************************************)
(* outcome: "built", "late" (accepted, then an error: only for a problem   *)
(* whose meaning was changed, full = FALSE), "refused" (before anything is *)
(* built, saying why), "mute" (refused without an error)                   *)
(***************************************************************************)
Problems(e) ==
  LET ok == WellFormed(e.name, e.tree) IN
  (IF ok /\ e.outcome \in {"refused", "mute"} THEN {"well formed but refused"} ELSE {})
  \cup (IF ok /\ e.full /\ e.outcome = "late" THEN {"well formed but an error comes later"} ELSE {})
  \cup (IF ~ok /\ e.outcome = "built" THEN {"ill formed but accepted"} ELSE {})
  \cup (IF ~ok /\ e.outcome = "late" THEN {"ill formed and refused too late"} ELSE {})
  \cup (IF ~ok /\ e.outcome = "mute" THEN {"refused without an error"} ELSE {})
  \cup (IF e.before # e.after THEN {"the dictionary was changed"} ELSE {})
  \cup (IF e.full /\ ~ok THEN {"the base of the case is ill formed"} ELSE {})
Init == ic = 1 /\ ie = 1 /\ (Len(Cases) > 0 => Say(<<"CASE", Cases[1].id>>))
Check == /\ ic <= Len(Cases) /\ ie <= Len(Case.evs)
         /\ \A p \in Problems(Ev) : Say(<<"FAIL", Case.id, ie, p>>)
         /\ ie' = ie + 1 /\ UNCHANGED ic
Next0 == /\ ic <= Len(Cases) /\ ie > Len(Case.evs)
         /\ ic' = ic + 1 /\ ie' = 1
         /\ ic < Len(Cases) => Say(<<"CASE", Cases[ic + 1].id>>)
Next == Check \/ Next0
Spec == Init /\ [][Next]_vars
View == <<ic, ie>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
