----------------------------- MODULE MC_Gather -----------------------------
(***************************************************************************)
(* Writing of fields by the first process: it writes its own block, then   *)
(* receives the blocks of the others in the order of their ranks, field    *)
(* after field and component after component, while the others send at     *)
(* their own pace.  The file holds the global fields, whatever the pace    *)
(* and whatever the order of the fields.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, Lists, Buffer
SizesQ == {<<2, 1>>, <<1, 2, 1>>, <<1, 1, 1, 2>>}           \* cells of each process
ListsQ == {<<1>>, <<2, 1>>, <<1, 2>>, <<1, 3, 1>>}          \* number of components of each field
SizesT == {<<2, 1>>, <<1, 2, 1>>, <<1, 1, 1, 2>>, <<3, 1, 1, 1, 1>>, <<2, 2, 2>>}
ListsT == {<<1>>, <<2, 1>>, <<1, 2>>, <<1, 3, 1>>, <<3, 2>>, <<1, 1, 1, 1>>}
VARIABLES sz, fs, at, net, rank, file
vars == <<sz, fs, at, net, rank, file>>
N == Len(sz)
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Total == SumTo(sz, N)
Off(p) == SumTo(sz, p - 1)
\* the sequence of (field, component) that every process goes through
RECURSIVE Plan(_, _)
Plan(l, i) == IF i > Len(l) THEN <<>> ELSE [j \in 1..l[i] |-> <<i, j>>] \o Plan(l, i + 1)
P == Plan(fs, 1)
Value(fc, c) == <<fc, c>>                                   \* the value of a component at a global cell
Block(p, fc) == [c \in 1..sz[p] |-> Value(fc, Off(p) + c)]
Init == /\ sz \in Sizes /\ fs \in Lists
        /\ at = [p \in 1..N |-> 1] /\ net = [p \in 1..N |-> <<>>] /\ rank = 1
        /\ file = [k \in 1..Len(P) |-> [c \in 1..Total |-> <<>>]]
Write(k, p, b) == [file EXCEPT ![k] = [c \in 1..Total |-> IF c > Off(p) /\ c <= Off(p) + sz[p] THEN b[c - Off(p)] ELSE @[c]]]
\* the root: own block, then one block from each other process
Root == /\ at[1] <= Len(P)
        /\ \/ /\ rank = 1 /\ file' = Write(at[1], 1, Block(1, P[at[1]])) /\ UNCHANGED net
           \/ /\ rank > 1 /\ net[rank] # <<>>
              /\ Head(net[rank])[1] = P[at[1]][2]           \* the tag is the component
              /\ file' = Write(at[1], rank, Head(net[rank])[2])
              /\ net' = [net EXCEPT ![rank] = Tail(@)]
        /\ IF rank = N THEN rank' = 1 /\ at' = [at EXCEPT ![1] = @ + 1] ELSE rank' = rank + 1 /\ UNCHANGED at
        /\ UNCHANGED <<sz, fs>>
Send(p) == /\ p > 1 /\ at[p] <= Len(P) /\ Len(net[p]) < Buffer
           /\ net' = [net EXCEPT ![p] = Append(@, <<P[at[p]][2], Block(p, P[at[p]])>>)]
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<sz, fs, rank, file>>
Finished == \A p \in 1..N : at[p] > Len(P)
Next == Root \/ (\E p \in 1..N : Send(p)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Complete == Finished => /\ \A p \in 1..N : net[p] = <<>>
                        /\ \A k \in 1..Len(P), c \in 1..Total : file[k][c] = Value(P[k], c)
NeverWrong == \A k \in 1..Len(P), c \in 1..Total : file[k][c] \in {<<>>, Value(P[k], c)}
=============================================================================
