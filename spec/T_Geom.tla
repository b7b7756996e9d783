------------------------------- MODULE T_Geom -------------------------------
(***************************************************************************)
(* Trace specification of Domain objects: each case is a domain built by   *)
(* the code, observed once.  The domain is the final state of a machine    *)
(* that adds the elements one after the other (Compose); every cell and    *)
(* every link of it is decided.                                            *)
(*                                                                         *)
(*  o.ioo[p]      1 solid, 0 fluid, 3 anything else                        *)
(*  o.dist[k][p]  -1 neutral, floor(d*T), or -2 if not a number in (0, 1]  *)
(*  o.flag[k][p]  label, 999 neutral                                       *)
(*  o.nrm[k][p]   normal in thousandths                                    *)
(*  o.xc[i], o.xh[i]  coordinates: (x - origin) * 2 / dx, interior & halo  *)
(***************************************************************************)
EXTENDS Geom, Verdict, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ic, ph, mp, br
vars == <<ic, ph, mp, br>>
Case == Cases[ic]
g == Case.cfg
o == Case.obs
T == g.T
NextCase == ic' = ic + 1 /\ ph' = 0 /\ mp' = <<>> /\ br' = <<>>
Fail(X) == \A x \in X : Say(<<"FAIL", Case.id, ph, x>>)
FewOf(X) == IF Cardinality(X) <= 4 THEN X ELSE CHOOSE Y \in SUBSET X : Cardinality(Y) = 4
First(X) == IF X = {} THEN {} ELSE {CHOOSE x \in X : TRUE}

(***************************************************************************)
(* C05: coordinates                                                        *)
(***************************************************************************)
CoordBad ==
  {<<"coords", i>> : i \in {i \in 1..g.dim : o.xc[i] # [j \in 1..g.n[i] |-> 2*j - 1]}}
  \cup {<<"coords_halo", i>> : i \in {i \in 1..g.dim : o.xh[i] # [j \in 1..Tot(g, i) |-> 2*(j - g.h[i]) - 1]}}
  \cup {<<"halo", i>> : i \in {i \in 1..g.dim : g.h[i] # FoldLeft(LAMBDA a, v : MaxI(a, AbsI(v[i])), 0, g.vel)}}
  \cup {<<"shape", i>> : i \in {i \in 1..g.dim : o.shin[i] # g.n[i] \/ o.shha[i] # Tot(g, i)}}
  \cup {<<"views", j>> : j \in {j \in 1..Len(o.views) : o.views[j] # [i \in 1..g.dim |-> g.n[i]]}}
  \cup (IF o.bounds # << [i \in 1..g.dim |-> 1], [i \in 1..g.dim |-> 2*g.n[i] - 1] >> THEN {<<"bounds", 0>>} ELSE {})
  \cup (IF o.boundsh # << [i \in 1..g.dim |-> 1 - 2*g.h[i]], [i \in 1..g.dim |-> 2*(g.n[i]+g.h[i]) - 1] >> THEN {<<"bounds_halo", 0>>} ELSE {})

\* the same domain assembled from other process grids: same map, and same links of the cells of the box
AltBad ==
  IF "alt" \notin DOMAIN Case THEN {}
  ELSE UNION {LET a == Case.alt[j] b == a.obs IN
              IF a.kind = "raise" THEN {<<"split", a.grid, b.msg>>}
              ELSE UNION {IF ok[2] THEN {} ELSE {<<"split", a.grid, ok[1]>>} : ok \in {
                    <<"coords", b.xc = o.xc /\ b.xh = o.xh>>, <<"map", b.ioo = o.ioo>>,
                    <<"distance", \A k \in 1..Len(g.vel) : \A p \in 1..NC(g) : InBox(g, Pos(g, p)) => AbsI(b.dist[k][p] - o.dist[k][p]) <= (IF o.dist[k][p] < 0 THEN 0 ELSE 1)>>,
                    <<"flag", \A k \in 1..Len(g.vel) : \A p \in 1..NC(g) : InBox(g, Pos(g, p)) => b.flag[k][p] = o.flag[k][p]>>,
                    <<"normal", \A k \in 1..Len(g.vel) : \A p \in 1..NC(g) : InBox(g, Pos(g, p)) => \A i \in 1..3 : AbsI(b.nrm[k][p][i] - o.nrm[k][p][i]) <= 1>> }}
              : j \in 1..Len(Case.alt)}

Load == /\ ph = 0
        /\ Say(<<"CASE", Case.id>>)
        /\ IF Case.kind = "refuse"
           \* a box of a/b cells: accepted exactly when b divides a in every direction
           THEN LET ok == \A i \in 1..Len(Case.len) : Case.len[i][1] % Case.len[i][2] = 0
                IN (IF o.ok # ok THEN Fail({<<"box-multiple", Case.len>>}) ELSE TRUE) /\ NextCase
           ELSE IF Case.kind = "raise" THEN Fail({<<"exception", o.msg>>}) /\ NextCase
           ELSE IF \E e \in 1..Len(g.els) : ~RowsOK(g.els[e]) THEN Say(<<"CFGBAD", Case.id>>) /\ NextCase
           ELSE IF CoordBad # {} THEN Fail(CoordBad) /\ NextCase
           ELSE IF AltBad # {} THEN Fail(AltBad) /\ NextCase
           ELSE IF Case.kind = "coords" THEN NextCase
           ELSE ph' = 1 /\ mp' = Map(g) /\ br' = Bare(g) /\ UNCHANGED ic

(***************************************************************************)
(* C06: the map.  Undecided cells adopt the observation.                   *)
(***************************************************************************)
MapStep ==
  /\ ph = 1
  /\ LET bad == {p \in 1..NC(g) : o.ioo[p] = 3 \/ (mp[p] # 2 /\ o.ioo[p] # mp[p])}
     IN IF bad # {} THEN Fail({<<"map", Pos(g, p)>> : p \in FewOf(bad)}) /\ NextCase
        ELSE IF Case.kind \in {"map", "split"} THEN NextCase
        ELSE /\ mp' = [p \in 1..NC(g) |-> o.ioo[p]] /\ ph' = 2 /\ UNCHANGED <<ic, br>>

(***************************************************************************)
(* C07: the links.                                                         *)
(***************************************************************************)
Neutral(k, p) == o.dist[k][p] = -1 /\ o.flag[k][p] = 999
\* a link that leaves only through periodic sides may keep their label
NeutralP(k, p) == Neutral(k, p) \/ (o.flag[k][p] = -1 /\ o.dist[k][p] # -2)

\* the cell lies exactly on the border of a fluid element
EdgeStart(x) == \E e \in 1..Len(g.els) : g.els[e].fl = 1 /\ OnEdge(g.els[e], Cell(g, x), 1)
\* ... or of a solid element, which the code rounds
SolidEdge(x) == \E e \in 1..Len(g.els) : g.els[e].fl = 0 /\ g.els[e].exact = 0 /\ OnEdge(g.els[e], Cell(g, x), 1)
KnownKeys == {"periodic-image", "edge-start", "hidden-border"}
\* verdict of a wall link of the fluid cell x
WallVerdict(k, p, x, v) ==
  IF o.dist[k][p] < 0 \/ o.flag[k][p] \in {999, -1}
  THEN \* only the displaced point itself touches an element, and the code rounds
       (IF EdgeStart(x) THEN {"edge-start"} ELSE IF SolidEdge(x) THEN {} ELSE IF SolidAt(g, x, v, T, T) = 2 /\ SolidAt(g, x, v, T - 4, T) # 1 /\ Compose(g, At(g, x, v, T + 4, T), T) # 1 THEN {} ELSE {"missing"})
  ELSE
  LET t0 == o.dist[k][p]
      ta == MaxI(0, t0 - 1)
      tb == MinI(T, t0 + 2)
      ws == {i \in WallSides(g, x, v) : ExitIn(g, x, v, i, ta, tb, T)}
      ch == Changed(g, x, v, ta, tb, T)
      nr == Near(g, x, v, ta, tb, T, 3)
      P  == At(g, x, v, t0, T)
      \* the link enters the solid there
      here == SolidAt(g, x, v, ta, T) # 1 /\ SolidAt(g, x, v, tb, T) # 0
      cand == {<< SideLabel(g, v, i), [j \in 1..3 |-> IF j = i THEN 1 ELSE 0], 1 >> : i \in ws}
              \cup UNION {SidesOf(g.els[e], P, T, 6) : e \in ch \cup nr}
      several == Cardinality(ch \cup nr) + Cardinality(ws) >= 2
      grazing == ch = {} /\ ws = {} /\ nr # {}
      X0 == Cell(g, x)
      In(e, Q, t) == Inside(g.els[e], Q, t, 0)
      \* the border of an element, at a place where another one makes it no wall
      hidden == \E e \in ch :
                  /\ \E c \in SidesOf(g.els[e], P, T, 6) : c[1] = o.flag[k][p]
                  /\ \/ g.els[e].fl = 0 /\ \E f \in e+1..Len(g.els) : g.els[f].fl = 1 /\ In(f, P, T) /\ ~In(f, X0, 1)
                     \/ g.els[e].fl = 0 /\ \E f \in 1..e-1 : g.els[f].fl = 0 /\ In(f, P, T) /\ ~Inside(g.els[f], At(g, x, v, T, T), T, -1)
                     \/ g.els[e].fl = 1 /\ In(e, X0, 1)
                        /\ \E f \in 1..e-1 : g.els[f].fl = 0 /\ \E j \in 0..16 : (j * T) \div 16 <= t0 /\ In(f, At(g, x, v, (j*T) \div 16, T), T)
  IN IF ~here THEN (IF several \/ grazing \/ SolidEdge(x) THEN {} ELSE IF EdgeStart(x) THEN {"edge-start"} ELSE IF hidden THEN {"hidden-border"} ELSE {"distance"})
     ELSE IF ~\E c \in cand : c[1] = o.flag[k][p] THEN {"label"}
     ELSE IF ~\E c \in cand : c[1] = o.flag[k][p] /\ NormalOK(o.nrm[k][p], c[2], c[3], v) THEN {"normal"}
     ELSE {}

\* the recorded wall only touches an element
Grazes(k, p, x, v) ==
  LET t0 == o.dist[k][p] IN
  /\ t0 >= 0 /\ Near(g, x, v, t0, t0, T, 3) # {}
  /\ Changed(g, x, v, MaxI(0, t0 - 1), MinI(T, t0 + 2), T) = {}
LinkVerdict(k, p) ==
  LET x == Pos(g, p)
      v == g.vel[k]
      y == << x[1]+v[1], x[2]+v[2], x[3]+v[3] >>
  IN IF v = <<0,0,0>> \/ mp[p] = 1 \/ ~InBox(g, x)
     THEN (IF Neutral(k, p) THEN {} ELSE {"neutral"})
     ELSE IF InBox(g, y)
     THEN (IF mp[Lin(g, y)] = 1 THEN WallVerdict(k, p, x, v)
           ELSE IF Neutral(k, p) THEN {} ELSE {"neutral"})
     ELSE IF WallSides(g, x, v) # {} THEN WallVerdict(k, p, x, v)
     ELSE \* through periodic sides only
          LET wrapped == mp[Lin(g, Wrap(g, y))]
              bare == br[Lin(g, y)]
          IN IF bare = 2 THEN {}
             ELSE IF wrapped = 1 /\ bare = 1 THEN WallVerdict(k, p, x, v)
             ELSE IF wrapped = 0 /\ bare = 0 THEN (IF NeutralP(k, p) \/ Grazes(k, p, x, v) THEN {} ELSE {"neutral"})
             ELSE \* the element is seen on one side of a periodic boundary only
                  IF (IF wrapped = 1 THEN NeutralP(k, p) ELSE WallVerdict(k, p, x, v) \subseteq KnownKeys) THEN {"periodic-image"}
                  ELSE (IF wrapped = 1 THEN WallVerdict(k, p, x, v) ELSE IF NeutralP(k, p) THEN {} ELSE {"neutral"})

\* one velocity per step
LinkStep ==
  /\ ph >= 2 /\ ph - 1 <= Len(g.vel)
  /\ \E vd \in {TLCEval([p \in 1..NC(g) |-> LinkVerdict(ph - 1, p)])} :
     LET k == ph - 1
         bad == {p \in 1..NC(g) : vd[p] \ KnownKeys # {}}
     IN /\ (\A key \in KnownKeys : IF \E p \in 1..NC(g) : key \in vd[p] THEN Say(<<"KNOWN", Case.id, ph, key>>) ELSE TRUE)
        /\ IF bad # {} THEN Fail({<<"link", vd[p], k, g.vel[k], Pos(g, p)>> : p \in FewOf(bad)}) /\ NextCase
           ELSE IF k = Len(g.vel) THEN NextCase
           ELSE ph' = ph + 1 /\ UNCHANGED <<ic, mp, br>>

Init == ic = 1 /\ ph = 0 /\ mp = <<>> /\ br = <<>>
Next == ic <= Len(Cases) /\ (Load \/ MapStep \/ LinkStep)
Spec == Init /\ [][Next]_vars
View == <<ic, ph>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
