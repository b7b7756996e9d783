------------------------------ MODULE MC_Halo ------------------------------
(***************************************************************************)
(* Splitting of a box over a grid of processes, and the refreshing of the  *)
(* halo by messages: in each direction in turn, a process posts its two    *)
(* border slabs (halos of the other directions included) to its two        *)
(* neighbours of the periodic process grid, then waits for theirs.         *)
(* Processes proceed at their own pace.  Every process ends with the       *)
(* values of the global field, corners included.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Confs
ConfsQ == { [n |-> <<3, 2>>, h |-> <<1, 1>>, g |-> <<2, 1>>], [n |-> <<4, 3>>, h |-> <<2, 1>>, g |-> <<2, 1>>],
            [n |-> <<5, 2>>, h |-> <<1, 0>>, g |-> <<3, 1>>], [n |-> <<3, 3>>, h |-> <<1, 1>>, g |-> <<1, 3>>],
            [n |-> <<2, 2>>, h |-> <<2, 2>>, g |-> <<1, 1>>], [n |-> <<7, 1>>, h |-> <<1, 0>>, g |-> <<4, 1>>] }
ConfsT == {c \in [n : (2..6) \X (1..4), h : (0..2) \X (0..2), g : (1..3) \X (1..2)] :
             \A d \in 1..2 : c.n[d] \div c.g[d] >= c.h[d] /\ c.n[d] >= c.g[d]}

VARIABLES cf, loc, dir, sent, net
vars == <<cf, loc, dir, sent, net>>
\* start of part i (0..g) of n cells over g parts: the first parts take the remainder
Start(n, g, i) == i * (n \div g) + (IF i < n % g THEN i ELSE n % g)
Procs == {<<i, j>> : i \in 0..(cf.g[1]-1), j \in 0..(cf.g[2]-1)}
Lo(p, d) == Start(cf.n[d], cf.g[d], p[d])
Hi(p, d) == Start(cf.n[d], cf.g[d], p[d] + 1)
Size(p, d) == Hi(p, d) - Lo(p, d) + 2 * cf.h[d]
LCells(p) == {<<i, j>> : i \in 0..(Size(p, 1)-1), j \in 0..(Size(p, 2)-1)}
Nb(p, d, s) == [p EXCEPT ![d] = (@ + s + cf.g[d]) % cf.g[d]]
\* global cell of a local cell, wrapped
Glob(p, x) == [d \in 1..2 |-> (Lo(p, d) + x[d] - cf.h[d] + cf.n[d]) % cf.n[d]]
Own(p, x) == \A d \in 1..2 : x[d] >= cf.h[d] /\ x[d] < Size(p, d) - cf.h[d]
Slab(p, d, a) == {x \in LCells(p) : x[d] >= a /\ x[d] < a + cf.h[d]}
Move(x, d, s) == [x EXCEPT ![d] = @ + s]

Init == /\ cf \in Confs
        /\ loc = [p \in Procs |-> [x \in LCells(p) |-> IF Own(p, x) THEN Glob(p, x) ELSE <<-1, -1>>]]
        /\ dir = [p \in Procs |-> 1] /\ sent = [p \in Procs |-> FALSE]
        /\ net = {}
Skip(p) == /\ dir[p] <= 2 /\ cf.h[dir[p]] = 0 /\ dir' = [dir EXCEPT ![p] = @ + 1] /\ UNCHANGED <<cf, loc, sent, net>>
\* a message: source, destination, tag, and the values of the slab from its first layer
Msg(p, d, s) == LET a == IF s = -1 THEN cf.h[d] ELSE Size(p, d) - 2 * cf.h[d]
                IN [src |-> p, dst |-> Nb(p, d, s), tag |-> 2*d + (IF s = -1 THEN 0 ELSE 1),
                    val |-> [x \in {Move(y, d, -a) : y \in Slab(p, d, a)} |-> loc[p][Move(x, d, a)]]]
Send(p) == LET d == dir[p] IN
  /\ d <= 2 /\ cf.h[d] > 0 /\ ~sent[p]
  /\ net' = net \cup {Msg(p, d, -1), Msg(p, d, 1)}
  /\ sent' = [sent EXCEPT ![p] = TRUE] /\ UNCHANGED <<cf, loc, dir>>
From(p, d, s) == {m \in net : m.dst = p /\ m.src = Nb(p, d, s) /\ m.tag = 2*d + (IF s = -1 THEN 1 ELSE 0)}
Recv(p) == LET d == dir[p] IN
  /\ d <= 2 /\ sent[p]
  /\ \E l \in From(p, d, -1), r \in From(p, d, 1) :
       /\ net' = net \ {l, r}
       /\ loc' = [loc EXCEPT ![p] = [x \in LCells(p) |->
                    IF x[d] < cf.h[d] THEN l.val[x]
                    ELSE IF x[d] >= Size(p, d) - cf.h[d] THEN r.val[Move(x, d, cf.h[d] - Size(p, d))]
                    ELSE @[x]]]
  /\ dir' = [dir EXCEPT ![p] = @ + 1] /\ sent' = [sent EXCEPT ![p] = FALSE] /\ UNCHANGED cf
Finished == \A p \in Procs : dir[p] = 3
Idle == Finished /\ UNCHANGED vars
Next == (\E p \in Procs : Skip(p) \/ Send(p) \/ Recv(p)) \/ Idle
Spec == Init /\ [][Next]_vars

Partition == \A a \in 0..(cf.n[1]-1), b \in 0..(cf.n[2]-1) :
               Cardinality({p \in Procs : a >= Lo(p, 1) /\ a < Hi(p, 1) /\ b >= Lo(p, 2) /\ b < Hi(p, 2)}) = 1
Balanced == \A p, q \in Procs, d \in 1..2 : Hi(p, d) - Lo(p, d) <= Hi(q, d) - Lo(q, d) + 1
\* the values are those of the global field; nothing is left in the network
Right == Finished => net = {} /\ \A p \in Procs : \A x \in LCells(p) : loc[p][x] = Glob(p, x)
\* at any time a value is right or not yet received
NeverWrong == \A p \in Procs : \A x \in LCells(p) : loc[p][x] \in {<<-1, -1>>, Glob(p, x)}
OneMessage == \A m1, m2 \in net : (m1.src = m2.src /\ m1.dst = m2.dst /\ m1.tag = m2.tag) => m1 = m2
=============================================================================
