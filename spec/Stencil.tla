------------------------------ MODULE Stencil ------------------------------
(***************************************************************************)
(* Velocities and stencils.                                                *)
(*                                                                         *)
(* The numbering of the velocities is the order of their keys: first the   *)
(* maximum norm, then a documented order inside each shell.  The number of *)
(* a velocity is its rank.  MC_Numbering explores this order and checks    *)
(* that it is a bijection; T_Stencil decides tables and stencils recorded  *)
(* from the code.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

AbsI(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Neg(a) == IF a < 0 THEN 1 ELSE 0
Norm(v) == FoldLeft(LAMBDA a, c : Max2(a, AbsI(c)), 0, v)
Ball(dim, n) == [1..dim -> -n..n]

\* octant of the angle of (x, y), counterclockwise from the direction +x
Octant(x, y) ==
  CASE x > 0 /\ y >= 0 /\ y < x -> 0
    [] y > 0 /\ x > 0 /\ x <= y -> 1
    [] y > 0 /\ x <= 0 /\ -x < y -> 2
    [] x < 0 /\ y > 0 /\ y <= -x -> 3
    [] x < 0 /\ y <= 0 /\ -y < -x -> 4
    [] y < 0 /\ x < 0 /\ -x <= -y -> 5
    [] y < 0 /\ x >= 0 /\ x < -y -> 6
    [] OTHER -> 7
Key(v) ==
  IF Len(v) = 1 THEN << AbsI(v[1]), Neg(v[1]) >>
  ELSE IF Len(v) = 2
  THEN LET a == AbsI(v[1]) b == AbsI(v[2]) m == Min2(a, b)
           class == IF m = 0 THEN 0 ELSE IF a = b THEN 1 ELSE 2    \* axes, diagonals, others
       IN << Max2(a, b), class, m, Octant(v[1], v[2]) >>
  ELSE LET s == SortSeq(<< AbsI(v[1]), AbsI(v[2]), AbsI(v[3]) >>, LAMBDA x, y : x > y)
       IN s \o << AbsI(v[1]), AbsI(v[2]), AbsI(v[3]), Neg(v[1]), Neg(v[2]), Neg(v[3]) >>
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexFrom(a, b, i+1)
Before(v, w) == LexFrom(Key(v), Key(w), 1)

\* the velocities of norm at most n, by increasing number; the number k is at position k + 1
Table(dim, n) ==
  LET ks == SortSeq(SetToSeq({<< Key(v), v >> : v \in Ball(dim, n)}), LAMBDA a, b : LexFrom(a[1], b[1], 1))
  IN [i \in 1..Len(ks) |-> ks[i][2]]
Pow(b, e) == IF e = 1 THEN b ELSE IF e = 2 THEN b*b ELSE b*b*b

\* symmetric about the origin (axis 0) or about the axis number i
Sym(v, axis) == [i \in 1..Len(v) |-> IF i = axis THEN v[i] ELSE -v[i]]
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Sorted(X) == SetToSortSeq(X, LAMBDA a, b : a < b)
=============================================================================
