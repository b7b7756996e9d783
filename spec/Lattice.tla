------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Static structure of a lattice Boltzmann problem, computed from a       *)
(* configuration record c.  Everything is an integer; fields are          *)
(* sequences over the flattened cells of the array with its halo.         *)
(*                                                                         *)
(*  c.n   number of interior cells in each of 3 directions (1 if absent)   *)
(*  c.h   halo width in each direction (0 if absent)                       *)
(*  c.vel velocity <<vx,vy,vz>> of each distribution                       *)
(*  c.sch scheme number (1..) of each distribution                         *)
(*  c.opp index of the distribution of the same scheme with the opposite   *)
(*        velocity (0 if there is none)                                    *)
(*  c.sol sequence over interior cells (C order): 0 fluid, else 1 + label  *)
(*        of the obstacle (a square of half width c.hw[1]/c.hw[2] cells    *)
(*        centred on the cell)                                             *)
(*  c.box labels <<x-,x+,y-,y+,z-,z+>> of the sides, -1 = periodic         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dirs == 1..3
AbsI(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a < b THEN b ELSE a

Tot(c, i) == c.n[i] + 2 * c.h[i]
NC(c) == Tot(c,1) * Tot(c,2) * Tot(c,3)
Lin(c, x) == (x[1] * Tot(c,2) + x[2]) * Tot(c,3) + x[3] + 1
Pos(c, p) == << (p-1) \div (Tot(c,2)*Tot(c,3)), ((p-1) \div Tot(c,3)) % Tot(c,2), (p-1) % Tot(c,3) >>
InBox(c, x) == \A i \in Dirs : c.h[i] <= x[i] /\ x[i] < c.h[i] + c.n[i]
InArr(c, x) == \A i \in Dirs : 0 <= x[i] /\ x[i] < Tot(c, i)
Wrap(c, x) == [i \in Dirs |-> c.h[i] + ((x[i] - c.h[i]) % c.n[i])]
Shift(x, v) == << x[1]+v[1], x[2]+v[2], x[3]+v[3] >>
Back(x, v)  == << x[1]-v[1], x[2]-v[2], x[3]-v[3] >>
\* interior index (C order) of a cell of the box
ILin(c, x) == ((x[1]-c.h[1]) * c.n[2] + (x[2]-c.h[2])) * c.n[3] + (x[3]-c.h[3]) + 1
Solid(c, x) == InBox(c, x) /\ c.sol[ILin(c, x)] # 0
Fluid(c, x) == InBox(c, x) /\ c.sol[ILin(c, x)] = 0
Q(c) == Len(c.vel)

(***************************************************************************)
(* Walls.  The link that brings distribution k into the fluid cell         *)
(* g + v_k from the cell g crosses a wall iff g is solid, or lies beyond a *)
(* non periodic side.  A wall is a record of the acceptable labels and     *)
(* the distance d = dn/dd (fraction of the displacement, measured from the *)
(* fluid cell).                                                             *)
(***************************************************************************)
NoWall == [wall |-> FALSE, labs |-> {}, dn |-> 0, dd |-> 1]
SideLabel(c, i, sgn) == IF sgn < 0 THEN c.box[2*i-1] ELSE c.box[2*i]
\* numerator of the crossing parameter of the side in direction i, over 2*|w_i|
ExitN(c, x, w, i) == IF w[i] > 0 THEN 2 * (c.n[i] - (x[i]-c.h[i])) - 1 ELSE 2 * (x[i]-c.h[i]) + 1
Wall(c, k, g) ==
  LET v == c.vel[k]
      w == << -v[1], -v[2], -v[3] >>
      x == Shift(g, v)
  IN IF w = <<0,0,0>> \/ ~InArr(c, x) THEN NoWall
     ELSE IF ~Fluid(c, x) THEN NoWall
     ELSE IF InBox(c, g)
     THEN IF ~Solid(c, g) THEN NoWall
          ELSE LET W == MaxI(AbsI(w[1]), MaxI(AbsI(w[2]), AbsI(w[3])))
               IN [wall |-> TRUE, labs |-> {c.sol[ILin(c, g)] - 1},
                   dn |-> W * c.hw[2] - c.hw[1], dd |-> W * c.hw[2]]
     ELSE LET out == {i \in Dirs : g[i] < c.h[i] \/ g[i] >= c.h[i] + c.n[i]}
              wl == {i \in out : SideLabel(c, i, w[i]) >= 0}
              Le(i, j) == ExitN(c, x, w, i) * AbsI(w[j]) <= ExitN(c, x, w, j) * AbsI(w[i])
          IN IF wl = {} THEN NoWall
             ELSE LET first == {i \in wl : \A j \in wl : Le(i, j)}
                      f == CHOOSE i \in first : TRUE
                  IN [wall |-> TRUE, labs |-> {SideLabel(c, i, w[i]) : i \in first},
                      dn |-> ExitN(c, x, w, f), dd |-> 2 * AbsI(w[f])]

(***************************************************************************)
(* Tables, evaluated once per configuration.                               *)
(***************************************************************************)
Tables(c) ==
  [ nc    |-> NC(c),
    inbox |-> TLCEval([p \in 1..NC(c) |-> InBox(c, Pos(c, p))]),
    fluid |-> TLCEval([p \in 1..NC(c) |-> Fluid(c, Pos(c, p))]),
    wrap  |-> TLCEval([p \in 1..NC(c) |-> Lin(c, Wrap(c, Pos(c, p)))]),
    pull  |-> TLCEval([k \in 1..Q(c) |-> TLCEval([p \in 1..NC(c) |->
                 IF InBox(c, Pos(c, p)) THEN Lin(c, Back(Pos(c, p), c.vel[k])) ELSE 0])]),
    wall  |-> TLCEval([k \in 1..Q(c) |-> TLCEval([p \in 1..NC(c) |-> Wall(c, k, Pos(c, p))])]),
    \* cell at p + v_k (0 outside of the array)
    fwd   |-> TLCEval([k \in 1..Q(c) |-> TLCEval([p \in 1..NC(c) |->
                 LET y == Shift(Pos(c, p), c.vel[k]) IN IF InArr(c, y) THEN Lin(c, y) ELSE 0])]) ]
=============================================================================
