-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Geometry of a domain: the box, the ordered list of solid and fluid      *)
(* elements, the fluid/solid map and the wall links.                       *)
(*                                                                         *)
(* Lengths are integers in units of dx / S (S = 4); the box starts at 0    *)
(* and the centre of the interior cell i is S*i + S/2.  Points along a     *)
(* link are taken at multiples of 1/T of the displacement, so positions    *)
(* are integers in units of dx / (S*T).                                    *)
(*                                                                         *)
(*  g.n, g.h   interior cells and halo width in the three directions       *)
(*  g.vel      unique velocities                                           *)
(*  g.box      labels of the sides x-, x+, y-, y+, z-, z+; -1: periodic    *)
(*  g.els      elements, in the order in which they are added:             *)
(*     base    "ball" | "box" | "tri"                                      *)
(*     c       centre (ball) or corner (box, tri)                          *)
(*     vs      the vectors given by the user (columns of the map from the  *)
(*             reference element)                                          *)
(*     rows    dual rows: <<a, b, d, e>> stands for the coordinate          *)
(*             (a x + b y + d z) / e; the spec checks that they are dual   *)
(*             to vs                                                       *)
(*     cyl     1: the last row is a height, -1 <= height <= 1              *)
(*     labs    labels of the sides: those of the base, then bottom, top    *)
(*     fl      1: the element is fluid, 0: solid                           *)
(*     l       common denominator of the rows of the base                    *)
(*     exact   1: the code decides points on the edge without rounding     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

S == 4
AbsI(a) == IF a < 0 THEN -a ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]

NB(el) == Len(el.rows) - el.cyl          \* number of base coordinates
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
LCM(a, b) == (a \div GCD(a, b)) * b
LOf(el) == FoldLeft(LAMBDA a, r : LCM(a, r[4]), 1, SubSeq(el.rows, 1, NB(el)))

\* rows dual to the vectors of the user
RowsOK(el) == /\ Len(el.rows) = Len(el.vs) /\ el.l = LOf(el)
              /\ \A i \in 1..Len(el.rows) : el.rows[i][4] > 0
              /\ \A i, j \in 1..Len(el.rows) :
                   Dot3(el.rows[i], el.vs[j]) = (IF i = j THEN el.rows[i][4] ELSE 0)

(***************************************************************************)
(* Inside(el, P, T, d): P in units of 1/T is in the closed element dilated  *)
(* by d/T in the reference coordinates.  ToBall avoids large numbers by     *)
(* refusing the points outside of the circumscribed box first.              *)
(***************************************************************************)
Coord(el, i, P, T) == LET r == el.rows[i]
                      IN r[1]*(P[1]-T*el.c[1]) + r[2]*(P[2]-T*el.c[2]) + r[3]*(P[3]-T*el.c[3])
Inside(el, P, T, d) ==
  /\ el.cyl = 1 => LET i == Len(el.rows) IN AbsI(Coord(el, i, P, T)) <= (T+d) * el.rows[i][4]
  /\ CASE el.base = "ball" ->
            /\ \A i \in 1..NB(el) : AbsI(Coord(el, i, P, T)) <= (T+d) * el.rows[i][4]
            /\ LET l == el.l
                   w(i) == Coord(el, i, P, T) * (l \div el.rows[i][4])
               IN FoldLeft(LAMBDA a, i : a + w(i)*w(i), 0, [i \in 1..NB(el) |-> i]) <= ((T+d)*l) * ((T+d)*l)
       [] el.base = "box" ->
            \A i \in 1..2 : LET u == Coord(el, i, P, T) e == el.rows[i][4] IN -d*e <= u /\ u <= (T+d)*e
       [] el.base = "tri" ->
            /\ \A i \in 1..2 : LET u == Coord(el, i, P, T) e == el.rows[i][4] IN -d*e <= u /\ u <= (T+d)*e
            /\ LET l == el.l
               IN Coord(el, 1, P, T) * (l \div el.rows[1][4]) + Coord(el, 2, P, T) * (l \div el.rows[2][4]) <= (T+d)*l
Edge(el, P, T) ==
     \/ el.cyl = 1 /\ LET i == Len(el.rows) IN AbsI(Coord(el, i, P, T)) = T * el.rows[i][4]
     \/ el.base = "ball" /\ LET l == el.l
                                w(i) == Coord(el, i, P, T) * (l \div el.rows[i][4])
                            IN FoldLeft(LAMBDA a, i : a + w(i)*w(i), 0, [i \in 1..NB(el) |-> i]) = (T*l)*(T*l)
     \/ el.base # "ball" /\ \E i \in 1..2 : Coord(el, i, P, T) = 0
     \/ el.base = "box" /\ \E i \in 1..2 : Coord(el, i, P, T) = T * el.rows[i][4]
     \/ el.base = "tri" /\ LET l == el.l
                           IN Coord(el, 1, P, T) * (l \div el.rows[1][4]) + Coord(el, 2, P, T) * (l \div el.rows[2][4]) = T*l
\* a point of the closed element which is on the edge, exactly
OnEdge(el, P, T) == Inside(el, P, T, 0) /\ Edge(el, P, T)

(***************************************************************************)
(* Ordered composition: 0 fluid, 1 solid, 2 not decided (on the edge of an *)
(* element for which the code rounds).                                     *)
(***************************************************************************)
Compose(g, P, T) ==
  FoldLeft(LAMBDA v, el :
     LET mine == 1 - el.fl IN
     IF v = mine \/ ~Inside(el, P, T, 0) THEN v
     ELSE IF el.exact = 0 /\ Edge(el, P, T) THEN 2 ELSE mine, 0, g.els)

Cell(g, x) == [i \in 1..3 |-> IF i <= g.dim THEN S * (x[i] - g.h[i]) + S \div 2 ELSE 0]
Tot(g, i) == g.n[i] + 2*g.h[i]
NC(g) == Tot(g,1) * Tot(g,2) * Tot(g,3)
Lin(g, x) == (x[1] * Tot(g,2) + x[2]) * Tot(g,3) + x[3] + 1
Pos(g, p) == << (p-1) \div (Tot(g,2)*Tot(g,3)), ((p-1) \div Tot(g,3)) % Tot(g,2), (p-1) % Tot(g,3) >>
InBox(g, x) == \A i \in 1..3 : g.h[i] <= x[i] /\ x[i] < g.h[i] + g.n[i]
Wrap(g, x) == [i \in 1..3 |-> g.h[i] + ((x[i] - g.h[i]) % g.n[i])]

\* C06: what in_or_out must hold at a cell (1 solid; outside of the box always)
MapAt(g, x) == IF ~InBox(g, x) THEN 1 ELSE Compose(g, Cell(g, x), 1)
Map(g) == TLCEval([p \in 1..NC(g) |-> MapAt(g, Pos(g, p))])
\* the same without the box: the elements at cells of the halo
Bare(g) == TLCEval([p \in 1..NC(g) |-> Compose(g, Cell(g, Pos(g, p)), 1)])

(***************************************************************************)
(* Walls.                                                                  *)
(***************************************************************************)
\* the point at t/T of the displacement, units of 1/T
At(g, x, v, t, T) == LET X == Cell(g, x) IN << T*X[1] + t*S*v[1], T*X[2] + t*S*v[2], T*X[3] + t*S*v[3] >>

\* sides of the box crossed by the link: direction -> crossing num / (2 |v|)
Sides(g, x, v) == {i \in 1..g.dim : LET y == x[i] + v[i] IN y < g.h[i] \/ y >= g.h[i] + g.n[i]}
SideLabel(g, v, i) == IF v[i] < 0 THEN g.box[2*i-1] ELSE g.box[2*i]
ExitN(g, x, v, i) == IF v[i] > 0 THEN 2 * (g.n[i] - (x[i]-g.h[i])) - 1 ELSE 2 * (x[i]-g.h[i]) + 1
WallSides(g, x, v) == {i \in Sides(g, x, v) : SideLabel(g, v, i) >= 0}
\* the crossing of side i lies between t/T and u/T
ExitIn(g, x, v, i, t, u, T) == t * 2 * AbsI(v[i]) <= ExitN(g, x, v, i) * T /\ ExitN(g, x, v, i) * T <= u * 2 * AbsI(v[i])
Beyond(g, x, v, t, T) == \E i \in WallSides(g, x, v) : t * 2 * AbsI(v[i]) > ExitN(g, x, v, i) * T

\* solid at t/T of the link: 0, 1 or 2
SolidAt(g, x, v, t, T) == IF Beyond(g, x, v, t, T) THEN 1 ELSE Compose(g, At(g, x, v, t, T), T)

\* elements whose indicator changes between t and u, and those that are only near
Changed(g, x, v, t, u, T) ==
  {e \in 1..Len(g.els) : Inside(g.els[e], At(g,x,v,t,T), T, 0) # Inside(g.els[e], At(g,x,v,u,T), T, 0)}
\* a bound of the motion in the reference coordinates
Motion(el, v) == FoldLeft(LAMBDA a, r : MaxI(a, 2 + (S * AbsI(Dot3(r, v))) \div r[4]), 1, el.rows)
Near(g, x, v, t, u, T, d) ==
  {e \in 1..Len(g.els) : \E s \in {t, u} :
     LET D == d * Motion(g.els[e], v)
     IN Inside(g.els[e], At(g,x,v,s,T), T, D) /\ ~Inside(g.els[e], At(g,x,v,s,T), T, -D)}

(***************************************************************************)
(* Sides of an element near a point: pairs <<label, direction of the       *)
(* normal, flat>>.                                                          *)
(***************************************************************************)
Cov(r, k) == << r[1]*k, r[2]*k, r[3]*k >>
Add3(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3] >>
SidesOf(el, P, T, d) ==
  LET nb == NB(el)
      u(i) == Coord(el, i, P, T)
      e(i) == el.rows[i][4]
      lab(k) == el.labs[k]
      nl == Len(el.labs)
      l == el.l
      q == IF l <= 32 THEN 32 ELSE 1
      zero(i) == AbsI(u(i)) <= d * e(i)
      one(i) == AbsI(u(i) - T * e(i)) <= d * e(i)
      base ==
        CASE el.base = "ball" ->
               {<< lab(1), FoldLeft(LAMBDA a, i : Add3(a, Cov(el.rows[i], ((u(i) * (l \div e(i)) * q) \div T) * (l \div e(i)))), <<0,0,0>>,
                                    [i \in 1..nb |-> i]), 0 >>}
          [] el.base = "box" ->
               LET k == IF el.cyl = 1 THEN <<3, 4>> ELSE <<4, 3>> IN     \* labels of the sides u1 = 1 and u2 = 1
               (IF zero(2) THEN {<< lab(1), Cov(el.rows[2], 1), 1 >>} ELSE {})
               \cup (IF zero(1) THEN {<< lab(2), Cov(el.rows[1], 1), 1 >>} ELSE {})
               \cup (IF one(1) THEN {<< lab(k[1]), Cov(el.rows[1], 1), 1 >>} ELSE {})
               \cup (IF one(2) THEN {<< lab(k[2]), Cov(el.rows[2], 1), 1 >>} ELSE {})
          [] el.base = "tri" ->
               (IF zero(2) THEN {<< lab(1), Cov(el.rows[2], 1), 1 >>} ELSE {})
               \cup (IF zero(1) THEN {<< lab(2), Cov(el.rows[1], 1), 1 >>} ELSE {})
               \cup (IF AbsI(u(1)*(l \div e(1)) + u(2)*(l \div e(2)) - T*l) <= 2*d*l
                     THEN {<< lab(3), Add3(Cov(el.rows[1], l \div e(1)), Cov(el.rows[2], l \div e(2))), 1 >>} ELSE {})
      h == Len(el.rows)
      nearcap(sg) == AbsI(u(h) - sg * T * e(h)) <= d * e(h)
      nearbase == el.cyl = 0 \/ (LET el2 == [el EXCEPT !.cyl = 0, !.rows = SubSeq(el.rows, 1, nb)]
                                 IN Inside(el2, P, T, d) /\ ~Inside(el2, P, T, -d))
  IN (IF nearbase THEN base ELSE {})
     \cup (IF el.cyl = 1 /\ nearcap(-1) THEN {<< lab(nl-1), Cov(el.rows[h], 1), 1 >>} ELSE {})
     \cup (IF el.cyl = 1 /\ nearcap(1) THEN {<< lab(nl), Cov(el.rows[h], 1), 1 >>} ELSE {})

\* observed normal (in thousandths) parallel to G, unit, not pointing into the fluid
Scale3(G) == LET mx == MaxI(AbsI(G[1]), MaxI(AbsI(G[2]), AbsI(G[3])))
             IN IF mx <= 4000 THEN G ELSE LET q == mx \div 2000 IN << G[1] \div q, G[2] \div q, G[3] \div q >>
NormalOK(obs, G0, flat, v) ==
  LET G == Scale3(G0)
      n2 == Dot3(obs, obs)
      cr == << obs[2]*G[3]-obs[3]*G[2], obs[3]*G[1]-obs[1]*G[3], obs[1]*G[2]-obs[2]*G[1] >>
      c1 == AbsI(cr[1]) + AbsI(cr[2]) + AbsI(cr[3])
      g1 == AbsI(G[1]) + AbsI(G[2]) + AbsI(G[3])
  IN /\ 990000 <= n2 /\ n2 <= 1010000
     /\ c1 <= (IF flat = 1 THEN 6 ELSE 160) * g1
     /\ Dot3(obs, v) >= (IF flat = 1 THEN 0 ELSE -80)
=============================================================================
