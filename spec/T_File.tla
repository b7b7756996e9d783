------------------------------- MODULE T_File -------------------------------
(***************************************************************************)
(* Files written by H5File on several process grids.  The state is the     *)
(* file, grown by the calls of the case (grid, scalar, vector); the last   *)
(* event is what is read back: the data sets with their shapes and values, *)
(* and the description file.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Verdict, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ic, ie, fl
vars == <<ic, ie, fl>>
Case == Cases[ic]
Ev == Case.evs[ie]
n == Case.n                      \* global sizes
dim == Len(n)
Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* the k-th value (from 0) of a file in reverse axis order is the one of this index of the cells
\* (first axis slowest in the given fields)
Idx(k) == CASE dim = 1 -> k + 1
            [] dim = 2 -> (k % n[1]) * n[2] + (k \div n[1]) + 1
            [] dim = 3 -> ((k % n[1]) * n[2] + ((k \div n[1]) % n[2])) * n[3] + (k \div (n[1] * n[2])) + 1
ScalarSet(e) == [name |-> e.name, shape |-> Rev(n), comps |-> 1, val |-> TLCEval([k \in 1..Prod(n) |-> e.val[1][Idx(k - 1)]])]
\* vectors always have three components in the file, the given ones first
VectorSet(e) == [name |-> e.name, shape |-> Append(Rev(n), 3), comps |-> Len(e.val),
                 val |-> TLCEval([k \in 1..(3 * Prod(n)) |-> LET j == ((k - 1) % 3) + 1 IN
                           IF j > Len(e.val) THEN 0 ELSE e.val[j][Idx((k - 1) \div 3)]])]
GridSet(i) == [name |-> "x_" \o ToString(i - 1), shape |-> << n[i] >>, comps |-> 1, val |-> [k \in 1..n[i] |-> Case.o[i] + Case.d * (2 * k - 1)]]

Bad(nm, ok, x) == IF ok THEN {} ELSE {<<nm, x>>}
Names(S) == {S[i].name : i \in 1..Len(S)}
Find(S, nm) == S[CHOOSE i \in 1..Len(S) : S[i].name = nm]
\* components beyond the given ones are not specified
Same(a, b) == /\ a.shape = b.shape /\ Len(a.val) = Len(b.val)
              /\ \A k \in 1..Len(a.val) : a.val[k] = b.val[k]
                   \/ (Len(b.shape) = dim + 1 /\ dim >= 1 /\ ((k - 1) % 3) + 1 > b.comps)
FileBad ==
  Bad("data sets", Names(Ev.sets) = Names(fl) /\ Len(Ev.sets) = Len(fl), Names(Ev.sets))
  \cup UNION {IF fl[i].name \notin Names(Ev.sets) THEN {}
              ELSE Bad("data set", Same(Find(Ev.sets, fl[i].name), fl[i]), <<fl[i].name, Find(Ev.sets, fl[i].name).shape>>) : i \in 1..Len(fl)}
\* the description file: every data set, once, with its dimensions
XmlBad ==
  LET x == Ev.xml
      refs == [i \in 1..Len(x.items) |-> x.items[i].name]
  IN Bad("xdmf data sets", {refs[i] : i \in 1..Len(refs)} = Names(fl) /\ Len(refs) = Len(fl), refs)
     \cup UNION {IF x.items[i].name \notin Names(fl) THEN {}
                 ELSE Bad("xdmf dimensions", x.items[i].dims = Find(fl, x.items[i].name).shape, x.items[i])
                      \cup Bad("xdmf file", x.items[i].file = Case.file, x.items[i]) : i \in 1..Len(x.items)}
     \cup UNION {LET e == x.attrs[i] IN
                 IF e.name \notin Names(fl) THEN {<<"xdmf attribute", e>>}
                 ELSE Bad("xdmf attribute", e.ref = e.name /\ e.type = (IF Len(Find(fl, e.name).shape) = dim + 1 THEN "Vector" ELSE "Scalar"), e)
                 : i \in 1..Len(x.attrs)}
     \cup Bad("xdmf attributes", Len(x.attrs) = Len(fl) - dim, Len(x.attrs))
     \cup Bad("xdmf geometry", x.geom = [i \in 1..dim |-> "x_" \o ToString(i - 1)], x.geom)
     \cup Bad("xdmf topology", dim = 1 \/ x.topo = Rev(n), x.topo)
Fail(S) == \A x \in S : Say(<<"FAIL", Case.id, ie, x>>)
NextCase == ic' = ic + 1 /\ ie' = 0 /\ fl' = <<>>
Conclude(bad, f) == IF bad # {} THEN Fail(bad) /\ NextCase ELSE ie' = ie + 1 /\ fl' = f /\ UNCHANGED ic
Load == ie = 0 /\ Say(<<"CASE", Case.id>>) /\ ie' = 1 /\ UNCHANGED <<ic, fl>>
Event == /\ ie > 0 /\ ie <= Len(Case.evs)
         /\ CASE Ev.op = "grid" -> Conclude({}, fl \o [i \in 1..dim |-> GridSet(i)])
              [] Ev.op = "scalar" -> Conclude({}, Append(fl, ScalarSet(Ev)))
              [] Ev.op = "vector" -> Conclude({}, Append(fl, VectorSet(Ev)))
              [] Ev.op = "save" -> Conclude(FileBad \cup XmlBad, fl)
              [] Ev.op = "raise" -> Conclude({<<"exception", Ev.msg>>}, fl)
EndCase == ie > 0 /\ ie > Len(Case.evs) /\ NextCase
Init == ic = 1 /\ ie = 0 /\ fl = <<>>
Next == ic <= Len(Cases) /\ (Load \/ Event \/ EndCase)
Spec == Init /\ [][Next]_vars
View == <<ic, ie>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
