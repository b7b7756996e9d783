----------------------------- MODULE T_Analysis -----------------------------
(***************************************************************************)
(* The linear analysis of a scheme: the relaxation written on the          *)
(* distributions (amplification without the phases), the eigenvalues for   *)
(* wave vectors whose phases are powers of i, a lattice run by that matrix,*)
(* and the coefficients of the equivalent equation.  Observations are      *)
(* integers, scaled by c.D (matrix), c.D^j (sums of j-th powers), and by   *)
(* the scales given in the event (equivalent equation).                    *)
(***************************************************************************)
EXTENDS LBM, Verdict, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ic, ie, sc, R
vars == <<ic, ie, sc, R>>
Case == Cases[ic]
c == Case.cfg
Ev == Case.evs[ie]
Dist == 1..Q(c)
CRows == {c.fixed[j] : j \in 1..Len(c.fixed)}
Idx == [k \in Dist |-> k]
SumOver(f) == FoldLeft(LAMBDA a, k : a + f[k], 0, Idx)

(***************************************************************************)
(* Derivative of the equilibrium of moment i with respect to the conserved *)
(* moment r, at the state W (integers, not scaled)                         *)
(***************************************************************************)
Val(W, f) == FoldLeft(LAMBDA a, x : a * W[x], 1, f)
Without(f, j) == [x \in 1..(Len(f)-1) |-> IF x < j THEN f[x] ELSE f[x+1]]
DEq(W, i, r) ==
  FoldLeft(LAMBDA a, t : a + t.c * FoldLeft(LAMBDA b, j : b + (IF t.f[j] = r THEN Val(W, Without(t.f, j)) ELSE 0),
                                            0, [j \in 1..Len(t.f) |-> j]), 0, c.eq[i].t)
Jac(W) == TLCEval([i \in Dist |-> TLCEval([r \in Dist |-> IF r \in CRows THEN DEq(W, i, r) ELSE 0])])
EqAt(W) == TLCEval([i \in Dist |-> FoldLeft(LAMBDA a, t : a + t.c * Val(W, t.f), 0, c.eq[i].t)])

(***************************************************************************)
(* Relaxation linearised at W, on the distributions: column j is the image *)
(* of the j-th unit vector.  In a moving frame (velocity u at W) the       *)
(* increments are relaxed as seen from the frame.                          *)
(***************************************************************************)
FrameAt(W) == IF "rel" \in DOMAIN c
              THEN [i \in 1..3 |-> FoldLeft(LAMBDA a, t : a + t.c * Val(W, t.f), 0, c.rel[i].t)]
              ELSE <<0, 0, 0>>
Column(J, fr, u, j) ==
  LET m   == [i \in Dist |-> << c.D * FoldLeft(LAMBDA a, e : IF e[1] = j THEN a + e[2] ELSE a, 0, sc.M[i]) >>]
      d   == TLCEval([i \in Dist |-> << SumOver([r \in Dist |-> J[i][r] * m[r][1]]) - m[i][1] >>])
      du  == SeenFrom(c, DistAt(c, sc, d, 1), fr[u])
      r   == TLCEval([i \in Dist |-> << IF i \in CRows THEN 0 ELSE DivX(c.s[i][1] * du[i], c.s[i][2]) >>])
      b   == SeenFrom(c, DistAt(c, sc, r, 1), fr[Opposite3(u)])
  IN DistAt(c, sc, [i \in Dist |-> << m[i][1] + b[i] >>], 1)
MatrixAt(W) ==
  LET J == Jac(W)
      u == FrameAt(W)
      fr == Frames(c, {u, Opposite3(u)})
      cols == TLCEval([j \in Dist |-> Column(J, fr, u, j)])
  IN TLCEval([k \in Dist |-> TLCEval([j \in Dist |-> cols[j][k]])])

(***************************************************************************)
(* Gaussian integers: phases are powers of i                               *)
(***************************************************************************)
Phase(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
GM(a, b) == << a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1] >>
GA(a, b) == << a[1] + b[1], a[2] + b[2] >>
Amp(w) == TLCEval([k \in Dist |-> TLCEval([j \in Dist |->
            LET ph == Phase(w[1]*c.vel[j][1] + w[2]*c.vel[j][2] + w[3]*c.vel[j][3])
            IN << R[k][j] * ph[1], R[k][j] * ph[2] >>])])
GMul(A, B) == TLCEval([k \in Dist |-> TLCEval([j \in Dist |-> FoldLeft(LAMBDA a, l : GA(a, GM(A[k][l], B[l][j])), <<0, 0>>, Idx)])])
Trace(A) == FoldLeft(LAMBDA a, k : GA(a, A[k][k]), <<0, 0>>, Idx)
RECURSIVE Powers(_, _, _)
Powers(G, A, n) == IF n = 0 THEN <<>> ELSE << Trace(A) >> \o (IF n = 1 THEN <<>> ELSE Powers(G, GMul(A, G), n - 1))

(***************************************************************************)
(* Equivalent equation.  VM(d) = inv.den * M V_d M^-1 acts on moments.     *)
(***************************************************************************)
VM(d) == TLCEval([i \in Dist |-> TLCEval([r \in Dist |->
           FoldLeft(LAMBDA a, e : a + e[2] * c.la * c.vel[e[1]][d] * InvRows(c)[e[1]][r], 0, sc.M[i])])])
Flux(W, d) == LET L == VM(d) E == EqAt(W) IN [i \in Dist |-> SumOver([r \in Dist |-> L[i][r] * E[r]])]   \* times inv.den
\* coefficient of d_d ( . d_e W_r) in the equation of W_i, times inv.den^2 * 2 * sn where sn = product of the numerators
SigmaN(i) == LET o == FoldLeft(LAMBDA a, r : IF r = i \/ r \in CRows THEN a ELSE a * c.s[r][1], 1, Idx)
             IN (2 * c.s[i][2] - c.s[i][1]) * o
Order2(W, d, e) ==
  LET J == Jac(W)
      Ld == VM(d)
      Le == VM(e)
      LJ == TLCEval([i \in Dist |-> TLCEval([r \in Dist |-> IF r \in CRows THEN SumOver([x \in Dist |-> Le[i][x] * J[x][r]]) ELSE 0])])
      Psi(i, r) == SumOver([x \in Dist |-> IF x \in CRows THEN J[i][x] * LJ[x][r] ELSE 0]) - LJ[i][r]
      P == TLCEval([i \in Dist |-> TLCEval([r \in Dist |-> IF r \in CRows /\ i \notin CRows THEN Psi(i, r) * SigmaN(i) ELSE 0])])
  IN [i \in Dist |-> [r \in Dist |-> IF i \in CRows /\ r \in CRows
                                     THEN SumOver([x \in Dist |-> IF x \in CRows THEN 0 ELSE Ld[i][x] * P[x][r]]) ELSE 0]]

(***************************************************************************)
NextCase == ic' = ic + 1 /\ ie' = 0 /\ sc' = <<>> /\ R' = <<>>
Fail(S) == \A x \in S : Say(<<"FAIL", Case.id, ie, x>>)
Conclude(bad, R2) ==
  IF Cardinality(bad) >= 0 /\ TLCGet(InexactReg) = 1 THEN Say(<<"INEXACT", Case.id, ie>>) /\ NextCase
  ELSE IF bad # {} THEN Fail(bad) /\ NextCase
  ELSE ie' = ie + 1 /\ R' = R2 /\ UNCHANGED <<ic, sc>>
Load == /\ ie = 0
        /\ Say(<<"CASE", Case.id>>)
        /\ TLCSet(InexactReg, 0)
        /\ IF CfgOK(c) THEN ie' = 1 /\ sc' = Scheme(c) /\ R' = <<>> /\ UNCHANGED ic
           ELSE Say(<<"CFGBAD", Case.id>>) /\ NextCase

Matrix == /\ Ev.op = "matrix"
          /\ LET E == MatrixAt(Ev.W)
             IN Conclude({<<"matrix", k, j>> : k \in {k \in Dist : \E j \in Dist : E[k][j] # Ev.R[k][j]}, j \in {0}}, E)
\* the eigenvalues returned for the wave vector w * pi/2
Eig == /\ Ev.op = "eig"
       /\ LET G == Amp(Ev.w)
              T == TLCEval(Powers(G, G, Len(Ev.tr)))
              \* a trace above the number of eigenvalues: one of them is outside the unit disk
              out == LET x == T[1][1] \div c.D y == T[1][2] \div c.D IN x * x + y * y > (Q(c) + 2) * (Q(c) + 2)
          IN LET conj == \A j \in 1..Len(Ev.tr) : Ev.tr[j] = << T[j][1], -T[j][2] >>      \* the opposite wave vector
             IN Conclude({<<"eig", j>> : j \in {j \in 1..Len(Ev.tr) : ~conj /\ T[j] # Ev.tr[j]}}
                      \cup (IF out /\ Ev.verdict # 2 THEN {<<"verdict", Ev.verdict>>} ELSE {}), R)
\* one step on a periodic lattice: streaming, then the matrix at each point.  F and G are fields without ghosts.
Run == /\ Ev.op = "run"
       /\ LET n == c.n
              L(x) == (x[1] * n[2] + x[2]) * n[3] + x[3] + 1
              Pts == {<<a, b, d>> : a \in 0..(n[1]-1), b \in 0..(n[2]-1), d \in 0..(n[3]-1)}
              From(x, k) == << (x[1] - c.vel[k][1]) % n[1], (x[2] - c.vel[k][2]) % n[2], (x[3] - c.vel[k][3]) % n[3] >>
              bad == {k \in Dist : \E x \in Pts :
                        FoldLeft(LAMBDA a, j : a + R[k][j] * Ev.F[j][L(From(x, j))], 0, Idx) # Ev.G[k][L(x)]}
          IN Conclude({<<"run", k>> : k \in bad}, R)
FluxEv == /\ Ev.op = "flux"
          /\ LET E == Flux(Ev.W, Ev.d)
             IN Conclude({<<"order1", Ev.d, i>> : i \in {i \in CRows : E[i] # Ev.val[i]}}, R)
Order2Ev == /\ Ev.op = "order2"
            /\ LET E == Order2(Ev.W, Ev.d, Ev.e)
               IN Conclude({<<"order2", Ev.d, Ev.e, i>> : i \in {i \in CRows : \E r \in CRows : E[i][r] # Ev.val[i][r]}}, R)
RaiseOp == Ev.op = "raise" /\ Conclude({<<"exception", Ev.msg>>}, R)
Event == ie > 0 /\ ie <= Len(Case.evs) /\ (Matrix \/ Eig \/ Run \/ FluxEv \/ Order2Ev \/ RaiseOp)
EndCase == ie > 0 /\ ie > Len(Case.evs) /\ NextCase
Init == ic = 1 /\ ie = 0 /\ sc = <<>> /\ R = <<>>
Next == ic <= Len(Cases) /\ (Load \/ Event \/ EndCase)
Spec == Init /\ [][Next]_vars
View == <<ic, ie>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
