-------------------------------- MODULE LBM --------------------------------
(***************************************************************************)
(* Dynamics of a lattice Boltzmann simulation: the phases of a time step   *)
(* as functions on fields, and the observable state machine built on them. *)
(*                                                                         *)
(* All values are integers scaled by c.D (so that dyadic or other rational *)
(* values stay exact).  F is a sequence over distributions of sequences    *)
(* over cells (with halo); m likewise over moments.                        *)
(*                                                                         *)
(*  c.P[i]   polynomial of moment i: [den, t], t a sequence of             *)
(*           <<coef, ex, ey, ez>>                                          *)
(*  c.msch[i] scheme of moment i;  c.la scheme velocity                    *)
(*  c.inv    [den, a]: inverse of the moment matrix, verified by CfgOK     *)
(*  c.eq[i]  equilibrium of moment i: [den, t], t a sequence of            *)
(*           [c |-> coef, f |-> <<rows of the factors>>]                   *)
(*  c.s[i]   relaxation rate <<num, den>>                                  *)
(*  c.src    sequence of [i |-> row, den, t, cx, ct, fx] source terms: the  *)
(*           polynomial plus (cx . position + ct * time) times the moment   *)
(*           fx (times 1 when fx = 0)                                       *)
(*  c.dth    half time step <<num, den>>                                   *)
(***************************************************************************)
EXTENDS Lattice, SequencesExt

InexactReg == 71
DivX(a, b) == IF a % b = 0 THEN a \div b
              ELSE IF TLCSet(InexactReg, 1) THEN a \div b ELSE 0

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(***************************************************************************)
(* The moment matrix: polynomials evaluated at the physical velocities.    *)
(***************************************************************************)
MEntry(c, i, k) ==
  IF c.msch[i] # c.sch[k] THEN 0
  ELSE LET v == c.vel[k]
           val == FoldLeft(LAMBDA a, t : a + t[1] * Pow(c.la*v[1], t[2]) * Pow(c.la*v[2], t[3]) * Pow(c.la*v[3], t[4]),
                           0, c.P[i].t)
       IN val \div c.P[i].den
SparseRow(row) == LET idx == SelectSeq([k \in 1..Len(row) |-> k], LAMBDA k : row[k] # 0)
                  IN [j \in 1..Len(idx) |-> << idx[j], row[idx[j]] >>]
MRows(c) == TLCEval([i \in 1..Q(c) |-> TLCEval([k \in 1..Q(c) |-> MEntry(c, i, k)])])
InvRows(c) == c.inv.a

\* everything the phases need, evaluated once per configuration
Scheme(c) == [ M  |-> TLCEval([i \in 1..Q(c) |-> SparseRow(MRows(c)[i])]),
               Mi |-> TLCEval([k \in 1..Q(c) |-> SparseRow(InvRows(c)[k])]) ]

\* the driver's inverse really is the inverse of the spec's moment matrix
CfgOK(c) ==
  LET M == MRows(c) IN
  /\ \A i \in 1..Q(c), k \in 1..Q(c) : \A t \in {1} :
       (FoldLeft(LAMBDA a, tt : a + tt[1] * Pow(c.la*c.vel[k][1], tt[2]) * Pow(c.la*c.vel[k][2], tt[3])
                                  * Pow(c.la*c.vel[k][3], tt[4]), 0, c.P[i].t)) % c.P[i].den = 0
  /\ \A i \in 1..Q(c), j \in 1..Q(c) :
       FoldLeft(LAMBDA a, k : a + M[i][k] * c.inv.a[k][j], 0, [k \in 1..Q(c) |-> k])
         = (IF i = j THEN c.inv.den ELSE 0)

(***************************************************************************)
(* Pointwise phases                                                        *)
(***************************************************************************)
Dot(row, G, p) == FoldLeft(LAMBDA a, e : a + e[2] * G[e[1]][p], 0, row)
ToMoments(c, tb, S, F) == TLCEval([i \in 1..Q(c) |-> TLCEval([p \in 1..tb.nc |-> Dot(S.M[i], F, p)])])
ToDistrib(c, tb, S, m) == TLCEval([k \in 1..Q(c) |-> TLCEval([p \in 1..tb.nc |-> DivX(Dot(S.Mi[k], m, p), c.inv.den)])])

\* value of a term coef * product of moments, at point p
Term(c, t, m, p) ==
  IF Len(t.f) = 0 THEN t.c * c.D
  ELSE FoldLeft(LAMBDA a, i : DivX(a * m[i][p], c.D), t.c * m[t.f[1]][p], Tail(t.f))
PolyVal(c, e, m, p) == DivX(FoldLeft(LAMBDA a, t : a + Term(c, t, m, p), 0, e.t), e.den)

Equilibrium(c, tb, m) == TLCEval([i \in 1..Q(c) |-> TLCEval([p \in 1..tb.nc |-> PolyVal(c, c.eq[i], m, p)])])
Relaxation(c, tb, m) ==
  TLCEval([i \in 1..Q(c) |->
    IF c.s[i][1] = 0 THEN m[i]
    ELSE TLCEval([p \in 1..tb.nc |->
           DivX((c.s[i][2] - c.s[i][1]) * m[i][p] + c.s[i][1] * PolyVal(c, c.eq[i], m, p), c.s[i][2])])])

(***************************************************************************)
(* Relaxation in a moving frame.  The moments of a point seen from a frame *)
(* of velocity u are those of the polynomials translated by u.  The non    *)
(* conserved ones relax towards the equilibrium seen from that frame, and  *)
(* the result is seen again from the fixed frame (translation by -u).      *)
(***************************************************************************)
PAt(c, i, k, u) ==
  LET v == c.vel[k] IN
  DivX(FoldLeft(LAMBDA a, t : a + t[1] * Pow(c.la*v[1] - u[1], t[2]) * Pow(c.la*v[2] - u[2], t[3]) * Pow(c.la*v[3] - u[3], t[4]), 0, c.P[i].t),
       c.P[i].den)
DistAt(c, S, m, p) == TLCEval([k \in 1..Q(c) |-> DivX(Dot(S.Mi[k], m, p), c.inv.den)])
Frames(c, us) ==           \* polynomials seen from the frames us and their opposites, at the velocities
  TLCEval([u \in us |-> TLCEval([i \in 1..Q(c) |->
    SparseRow([k \in 1..Q(c) |-> IF c.sch[k] # c.msch[i] THEN 0 ELSE PAt(c, i, k, u)])])])
SeenFrom(c, f, R) ==       \* moments, in the frame of rows R, of the distributions f of a point
  TLCEval([i \in 1..Q(c) |-> FoldLeft(LAMBDA a, e : a + e[2] * f[e[1]], 0, R[i])])
FrameOf(c, m, p) == TLCEval([i \in 1..3 |-> DivX(PolyVal(c, c.rel[i], m, p), c.D)])
Opposite3(u) == << -u[1], -u[2], -u[3] >>
RelPoint(c, S, m, p, fixed, u, fr) ==
  LET mu  == SeenFrom(c, DistAt(c, S, m, p), fr[u])
      eq  == TLCEval([i \in 1..Q(c) |-> << PolyVal(c, c.eq[i], m, p) >>])
      equ == SeenFrom(c, DistAt(c, S, eq, 1), fr[u])
      r   == TLCEval([i \in 1..Q(c) |-> << IF i \in fixed THEN mu[i]
                                          ELSE DivX((c.s[i][2] - c.s[i][1]) * mu[i] + c.s[i][1] * equ[i], c.s[i][2]) >>])
  IN SeenFrom(c, DistAt(c, S, r, 1), fr[Opposite3(u)])
RelRelaxation(c, tb, S, m) ==
  LET fixed == {c.fixed[j] : j \in 1..Len(c.fixed)}
      u   == TLCEval([p \in 1..tb.nc |-> IF tb.inbox[p] THEN FrameOf(c, m, p) ELSE <<0, 0, 0>>])
      us  == {u[p] : p \in 1..tb.nc}
      fr  == Frames(c, us \cup {Opposite3(x) : x \in us})
      all == TLCEval([p \in 1..tb.nc |-> IF tb.inbox[p] THEN RelPoint(c, S, m, p, fixed, u[p], fr)
                                         ELSE TLCEval([i \in 1..Q(c) |-> m[i][p]])])
  IN TLCEval([i \in 1..Q(c) |-> TLCEval([p \in 1..tb.nc |-> all[p][i]])])

\* twice the position of the centre of a cell, in cells from the corner of the box
PosN(c, p, i) == 2 * (Pos(c, p)[i] - c.h[i]) + 1
\* cx . (position of the cell p)
AtPoint(c, cx, p) ==
  DivX(c.D * c.dx[1] * (cx[1]*PosN(c,p,1) + cx[2]*PosN(c,p,2) + cx[3]*PosN(c,p,3)), 2 * c.dx[2])
  + c.D * (cx[1]*c.org[1] + cx[2]*c.org[2] + cx[3]*c.org[3])

\* half a time step of every source, all read before any is written; the sources see the
\* moments and the position of the point and the time t of the beginning of the step
SrcOf(c, i) == SelectSeq(c.src, LAMBDA r : r.i = i)
Vary(c, s, m, p, t) ==
  IF s.ct = 0 /\ s.cx = <<0, 0, 0>> THEN 0
  ELSE LET a == AtPoint(c, s.cx, p) + DivX(c.D * s.ct * t[1], t[2])
       IN IF s.fx = 0 THEN a ELSE DivX(a * m[s.fx][p], c.D)
HalfSource(c, tb, m, t) ==
  IF Len(c.src) = 0 THEN m
  ELSE TLCEval([i \in 1..Q(c) |->
    LET so == SrcOf(c, i) IN
    IF Len(so) = 0 THEN m[i]
    ELSE TLCEval([p \in 1..tb.nc |->
           IF ~tb.inbox[p] THEN m[i][p]
           ELSE m[i][p] + DivX(c.dth[1] * (PolyVal(c, so[1], m, p) + Vary(c, so[1], m, p, t)), c.dth[2])])])

(***************************************************************************)
(* Streaming.  The values that a phase leaves unspecified (ghost points    *)
(* after the transport) are taken from the field g.                        *)
(***************************************************************************)
Transport(c, tb, F, g) ==
  TLCEval([k \in 1..Q(c) |-> TLCEval([p \in 1..tb.nc |->
    IF tb.pull[k][p] = 0 THEN g[k][p] ELSE F[k][tb.pull[k][p]]])])

(***************************************************************************)
(* Boundary condition.  Ghosts of the box are refreshed periodically, then *)
(* each link crossing a wall receives its value.  The wall value of a link *)
(* is a set: at a corner where two sides with different labels meet, or    *)
(* where the method reads a cell which is not fluid, more than one value   *)
(* is acceptable; {} means any value.                                      *)
(***************************************************************************)
\* equilibrium distribution of the moments prescribed at a wall (feq of k)
WallFeq(c, S, mv, k) ==
  LET m1 == [i \in 1..Q(c) |-> << mv[i] >>]
      e  == [i \in 1..Q(c) |-> << PolyVal(c, c.eq[i], m1, 1) >>]
  IN DivX(Dot(S.Mi[k], e, 1), c.inv.den)

\* moments set by the user's wall function: conserved rows get
\* a0 + a . (position of the wall point) + b * t, other rows 0
WallPosN(c, x, w, wl, i) == (2 * (x[i] - c.h[i]) + 1) * wl.dd + 2 * wl.dn * w[i]   \* over 2*dd cells
\* position in length units: c.org + dx * that, dx = c.dx[1]/c.dx[2] : a term in each
WallMoment(c, x, w, wl, val, i, t) ==
  LET as == SelectSeq(val, LAMBDA a : a.i = i) IN
  IF Len(as) = 0 THEN 0
  ELSE LET a == as[1] IN
       a.c0 * c.D
       + DivX(c.D * c.dx[1] * (a.cx[1] * WallPosN(c,x,w,wl,1) + a.cx[2] * WallPosN(c,x,w,wl,2) + a.cx[3] * WallPosN(c,x,w,wl,3)),
              2 * wl.dd * c.dx[2])
       + c.D * (a.cx[1]*c.org[1] + a.cx[2]*c.org[2] + a.cx[3]*c.org[3])
       + DivX(c.D * a.ct * t[1], t[2])

LinkRhs(c, S, k, x, wl, lab, sign, t) ==
  LET val == c.bcval[lab+1] IN
  IF Len(val) = 0 \/ c.opp[k] = 0 THEN 0
  ELSE LET v == c.vel[k]
           w == << -v[1], -v[2], -v[3] >>
           mv == TLCEval([i \in 1..Q(c) |-> WallMoment(c, x, w, wl, val, i, t)])
       IN WallFeq(c, S, mv, k) + sign * WallFeq(c, S, mv, c.opp[k])

\* F0 is the field after the periodic refresh
LinkVal(c, tb, S, F0, k, g, wl, lab, t) ==
  LET x  == tb.fwd[k][g]                \* the fluid cell
      X  == Pos(c, x)
      G  == Pos(c, g)
      v  == c.vel[k]
      ko == c.opp[k]
      meth == c.bcm[lab+1][c.sch[k]]
      far == LET y == Shift(X, v) IN IF Fluid(c, y) THEN Lin(c, y) ELSE 0
      small == 2 * wl.dn < wl.dd
      NAx(i) == LET y == [G EXCEPT ![i] = @ + v[i]] IN IF Fluid(c, y) THEN {F0[k][Lin(c, y)]} ELSE {}
  IN CASE meth = "bb"  -> {F0[ko][x] + LinkRhs(c, S, k, X, wl, lab, -1, t)}
       [] meth = "abb" -> {-F0[ko][x] + LinkRhs(c, S, k, X, wl, lab, 1, t)}
       [] meth = "bbb" /\ small /\ far = 0 -> {}
       [] meth = "bbb" /\ small /\ far # 0 ->
            {DivX(2*wl.dn*F0[ko][x] + (wl.dd - 2*wl.dn)*F0[ko][far], wl.dd) + LinkRhs(c, S, k, X, wl, lab, -1, t)}
       [] meth = "bbb" /\ ~small ->
            {DivX(wl.dd*F0[ko][x] + (2*wl.dn - wl.dd)*F0[k][x], 2*wl.dn)
              + LinkRhs(c, S, k, X, wl, lab, -1, t)}
       [] meth = "babb" /\ small /\ far = 0 -> {}
       [] meth = "babb" /\ small /\ far # 0 ->
            {DivX(-2*wl.dn*F0[ko][x] - (wl.dd - 2*wl.dn)*F0[ko][far], wl.dd) + LinkRhs(c, S, k, X, wl, lab, 1, t)}
       [] meth = "babb" /\ ~small ->
            {DivX(-wl.dd*F0[ko][x] + (2*wl.dn - wl.dd)*F0[k][x], 2*wl.dn)
              + LinkRhs(c, S, k, X, wl, lab, 1, t)}
       [] meth = "n"  -> {F0[k][x]}
       [] meth = "nx" -> NAx(1)
       [] meth = "ny" -> NAx(2)
       [] meth = "nz" -> NAx(3)
       [] OTHER -> {}

\* what the code does instead for the Bouzidi anti bounce-back at small
\* distances (known finding bouzidi-antibb-sign): the second outgoing value
\* keeps its sign.
LinkSmallAnti(c, tb, S, F0, k, g, wl, lab, t) ==
  LET x == tb.fwd[k][g]
      X == Pos(c, x)
      ko == c.opp[k]
      y == Shift(X, c.vel[k])
      far == IF Fluid(c, y) THEN Lin(c, y) ELSE 0
  IN IF c.bcm[lab+1][c.sch[k]] = "babb" /\ 2 * wl.dn < wl.dd /\ far # 0
     THEN {DivX(-2*wl.dn*F0[ko][x] + (wl.dd - 2*wl.dn)*F0[ko][far], wl.dd) + LinkRhs(c, S, k, X, wl, lab, 1, t)}
     ELSE {}

Refresh(c, tb, F) ==
  TLCEval([k \in 1..Q(c) |-> TLCEval([p \in 1..tb.nc |-> F[k][tb.wrap[p]]])])

\* acceptable values of F[k][g] after the boundary condition ({} : any)
BCAcc(c, tb, S, F0, k, g, t) ==
  LET wl == tb.wall[k][g] IN
  IF ~wl.wall THEN {F0[k][g]}
  ELSE IF \E l \in wl.labs : LinkVal(c, tb, S, F0, k, g, wl, l, t) = {} THEN {}
       ELSE UNION {LinkVal(c, tb, S, F0, k, g, wl, l, t) : l \in wl.labs}

BCKnown(c, tb, S, F0, k, g, t) ==
  LET wl == tb.wall[k][g] IN
  IF ~wl.wall THEN {} ELSE UNION {LinkSmallAnti(c, tb, S, F0, k, g, wl, l, t) : l \in wl.labs}

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
SumCells(f, S, n) == FoldLeft(LAMBDA a, p : IF S[p] THEN a + f[p] ELSE a, 0, [p \in 1..n |-> p])
=============================================================================
