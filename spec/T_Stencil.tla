----------------------------- MODULE T_Stencil -----------------------------
(***************************************************************************)
(* Trace specification of Velocity and Stencil objects.                    *)
(* Case kinds:                                                             *)
(*  "table"  the numbering of one dimension up to a norm:                  *)
(*     vec[k+1]  components of Velocity(dim, num = k)                      *)
(*     num[k+1]  number of the velocity built from the components of the   *)
(*               number k of the specification                             *)
(*     sym[a+1][k+1]  << number, components >> of the symmetric (a = 0:    *)
(*               origin, otherwise axis a)                                 *)
(*     bad       axes out of range which were refused                      *)
(*  "far"    single velocities of large norm in 1D and 2D                  *)
(*  "stencil" lists of numbers and everything a Stencil shows about them   *)
(***************************************************************************)
EXTENDS Stencil, Verdict, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ic, tabs
vars == <<ic, tabs>>
Case == Cases[ic]
o == Case.obs
Fail(X) == \A x \in X : Say(<<"FAIL", Case.id, 0, x>>)
Bad(c, ok, info) == IF ok THEN {} ELSE {<<c, info>>}
FewOf(X) == IF Cardinality(X) <= 3 THEN X ELSE CHOOSE Y \in SUBSET X : Cardinality(Y) = 3

Formula(v) ==
  IF Len(v) = 1 THEN 2 * AbsI(v[1]) - (IF v[1] > 0 THEN 1 ELSE 0)
  ELSE LET a == AbsI(v[1]) b == AbsI(v[2]) n == Max2(a, b) m == Min2(a, b)
           quarter == Octant(v[1], v[2]) \div 2
       IN IF n = 0 THEN 0 ELSE (2*n - 1) * (2*n - 1) + (IF m = 0 THEN quarter ELSE IF a = b THEN 4 + quarter ELSE 8 * m + Octant(v[1], v[2]))

TableBad(T) ==
  LET n == Len(T) IN
  IF Len(o.vec) # n THEN {<<"length", Len(o.vec)>>} ELSE
  {<<"vector", k - 1, o.vec[k]>> : k \in FewOf({k \in 1..n : o.vec[k] # T[k]})}
  \cup {<<"number", T[k], o.num[k]>> : k \in FewOf({k \in 1..n : o.num[k] # k - 1})}
  \cup UNION {{<<"symmetric", a, T[k], o.sym[a+1][k]>> :
        k \in FewOf({k \in 1..n : LET w == Sym(T[k], a) IN o.sym[a+1][k][2] # w \/ T[o.sym[a+1][k][1] + 1] # w})} : a \in 0..Case.dim}
  \cup {<<"twice", a, T[k]>> : <<a, k>> \in FewOf({ak \in (0..Case.dim) \X (1..n) : o.twice[ak[1]+1][ak[2]] # ak[2] - 1})}
  \cup Bad("axis", o.bad = <<TRUE, TRUE>>, o.bad)

FarBad == {<<"far", e>> : e \in {e \in Range(o.far) :
             \/ e.num # Formula(e.v) \/ e.back # e.v
             \/ \E a \in 0..Len(e.v) : e.sym[a+1] # << Formula(Sym(e.v, a)), Sym(e.v, a) >>}}

\* everything about the stencil follows from the lists of velocities
StencilBad(T) ==
  LET dim == Case.dim
      L == Case.lists                                    \* numbers
      ns == Len(L)
      V == [s \in 1..ns |-> [i \in 1..Len(L[s]) |-> T[L[s][i] + 1]]]
      U == Sorted(UNION {Range(L[s]) : s \in 1..ns})      \* unique numbers
      ptr == [s \in 1..ns+1 |-> FoldLeft(LAMBDA a, l : a + Len(l), 0, SubSeq(L, 1, s-1))]
      all == FoldLeft(LAMBDA a, l : a \o l, <<>>, V)
      issym(s, a) == \A i \in 1..Len(V[s]) : Has(V[s], Sym(V[s][i], a))
      symtab(a) == FoldLeft(LAMBDA acc, s : acc \o [i \in 1..Len(V[s]) |-> ptr[s] + Index(V[s], Sym(V[s][i], a)) - 1], <<>>, [s \in 1..ns |-> s])
      comps(d) == {T[u+1][d] : u \in Range(U)}
      mx(X) == CHOOSE x \in X : \A y \in X : y <= x
      mn(X) == CHOOSE x \in X : \A y \in X : x <= y
      \* components in the three directions (None: 99)
      comp(v, d) == IF d <= dim THEN v[d] ELSE 99
  IN Bad("dim", o.dim = dim, o.dim)
     \cup Bad("nstencils", o.ns = ns /\ o.len = ns, o.ns)
     \cup Bad("unique", o.unum = U /\ o.unvtot = Len(U), o.unum)
     \cup Bad("unique-velocities", o.uv = [i \in 1..Len(U) |-> T[U[i]+1]], o.uv)
     \cup Bad("unique-components", \A d \in 1..dim : o.uvc[d] = [i \in 1..Len(U) |-> T[U[i]+1][d]], o.uvc)
     \cup Bad("unum2index", o.u2i = [i \in 1..Len(U) |-> i - 1], o.u2i)
     \cup Bad("nv", o.nv = [s \in 1..ns |-> Len(L[s])], o.nv)
     \cup Bad("nv_ptr", o.ptr = ptr, o.ptr)
     \cup Bad("numbers", o.num = L /\ o.num1 = L, o.num)
     \cup Bad("velocities", o.v = V, o.v)
     \cup Bad("components", o.vc = [s \in 1..ns |-> [d \in 1..dim |-> [i \in 1..Len(L[s]) |-> V[s][i][d]]]], o.vc)
     \cup Bad("num2index", o.n2i = FoldLeft(LAMBDA a, l : a \o l, <<>>, L), o.n2i)
     \cup Bad("all_velocities", o.all = all /\ o.alls = V, o.all)
     \cup Bad("vmax", o.vmax = [d \in 1..dim |-> mx({AbsI(x) : x \in comps(d)})], o.vmax)
     \cup Bad("vmax_full", o.vmaxf = [d \in 1..3 |-> IF d <= dim THEN mx({AbsI(x) : x \in comps(d)}) ELSE 0], o.vmaxf)
     \cup Bad("vmin", o.vmin = [d \in 1..dim |-> mn(comps(d))], o.vmin)
     \cup Bad("is_symmetric", o.issym = (\A s \in 1..ns : issym(s, 0)), o.issym)
     \* the table exists when the set of velocities of each scheme is symmetric
     \cup UNION {IF \A s \in 1..ns : issym(s, a) THEN Bad("symmetric-table", o.sym[a+1] = symtab(a), <<a, o.sym[a+1]>>)
                 ELSE {} : a \in 0..dim}

Init == ic = 1 /\ tabs = [d \in 1..3 |-> <<>>]
\* the tables are computed once
Tables == Case.kind \in {"table", "stencil"} /\ Len(tabs[Case.dim]) # Pow(2*Case.n + 1, Case.dim)
Prepare == Tables /\ tabs' = [tabs EXCEPT ![Case.dim] = TLCEval(Table(Case.dim, Case.n))] /\ UNCHANGED ic
Decide == /\ ~Tables
          /\ Say(<<"CASE", Case.id>>)
          /\ CASE Case.kind = "table" -> Fail(TableBad(tabs[Case.dim]))
               [] Case.kind = "far" -> Fail(FarBad)
               [] Case.kind = "stencil" -> Fail(StencilBad(tabs[Case.dim]))
               [] Case.kind = "raise" -> Fail({<<"exception", o.msg>>})
          /\ ic' = ic + 1 /\ UNCHANGED tabs
Next == ic <= Len(Cases) /\ (Prepare \/ Decide)
Spec == Init /\ [][Next]_vars
View == <<ic, [d \in 1..3 |-> Len(tabs[d])]>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
