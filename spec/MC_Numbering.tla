---------------------------- MODULE MC_Numbering ----------------------------
(***************************************************************************)
(* The numbering as a machine: velocities are enumerated one by one, the    *)
(* next one being the least velocity that follows.                          *)
(***************************************************************************)
EXTENDS Stencil
CONSTANT Bound                       \* dim -> largest norm
BoundQ == <<12, 5, 2>>
BoundT == <<40, 9, 3>>
VARIABLES dim, k, v, seen
vars == <<dim, k, v, seen>>
B(d) == Bound[d]
Init == /\ dim \in 1..3 /\ k = 0 /\ v = [i \in 1..dim |-> 0] /\ seen = {v}
After(w) == LET n == Norm(w) IN {x \in Ball(dim, Min2(n + 1, B(dim))) : Before(w, x)}
Next == /\ After(v) # {}
        /\ v' = CHOOSE x \in After(v) : \A y \in After(v) : x = y \/ Before(x, y)
        /\ k' = k + 1 /\ seen' = seen \cup {v'} /\ UNCHANGED dim
Spec == Init /\ [][Next]_vars
\* every velocity once
OneEach == Cardinality(seen) = k + 1
\* the first (2n+1)^d numbers are the ball of norm n
Shells == \A n \in 0..B(dim) : k + 1 = Pow(2*n + 1, dim) => seen = Ball(dim, n)
NormOrder == \A n \in 0..B(dim) : (k < Pow(2*n + 1, dim)) <=> Norm(v) <= n
\* the documented formulas in dimensions 1 and 2
Formula1 == dim = 1 => k = 2 * AbsI(v[1]) - (IF v[1] > 0 THEN 1 ELSE 0)
Formula2 == dim = 2 /\ k > 0 =>
  LET a == AbsI(v[1]) b == AbsI(v[2]) n == Max2(a, b) m == Min2(a, b)
      base == (2*n - 1) * (2*n - 1)
      quarter == Octant(v[1], v[2]) \div 2
  IN k = base + (IF m = 0 THEN quarter ELSE IF a = b THEN 4 + quarter ELSE 8 * m + Octant(v[1], v[2]))
Involution == \A ax \in 0..dim : Sym(Sym(v, ax), ax) = v /\ Norm(Sym(v, ax)) = Norm(v)
Everything == After(v) = {} => seen = Ball(dim, B(dim))
=============================================================================
