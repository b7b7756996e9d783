----------------------------- MODULE T_Monitor -----------------------------
(***************************************************************************)
(* Histories of calls of monitored functions of the code, with a clock     *)
(* that only moves when the history says so, and the tables printed.       *)
(***************************************************************************)
EXTENDS Monitor, Verdict, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ic, ie, s
vars == <<ic, ie, s>>
Case == Cases[ic]
Ev == Case.evs[ie]
Fail(S) == \A x \in S : Say(<<"FAIL", Case.id, ie, x>>)
NextCase == ic' = ic + 1 /\ ie' = 0 /\ s' = <<>>
Load == ie = 0 /\ Say(<<"CASE", Case.id>>) /\ ie' = 1 /\ UNCHANGED ic
        /\ s' = [Fresh(Case.nf) EXCEPT !.cnt = [f \in 1..Case.nf |-> Case.base[f][1]],
                                       !.tot = [f \in 1..Case.nf |-> Case.base[f][2]],
                                       !.slf = [f \in 1..Case.nf |-> Case.base[f][3]]]
Conclude(bad, t) == IF bad # {} THEN Fail(bad) /\ NextCase ELSE ie' = ie + 1 /\ s' = t /\ UNCHANGED ic
Table == [f \in 1..Case.nf |-> <<s.cnt[f], s.tot[f], s.slf[f]>>]
\* the columns of a row of the printed table: calls, total and self times, millions of
\* updates of the points of the domain per second (two decimals), and part of the
\* longest total time (in percent, one decimal)
Size == IF Len(Case.n) = 1 THEN Case.n[1] ELSE IF Len(Case.n) = 2 THEN Case.n[1] * Case.n[2] ELSE Case.n[1] * Case.n[2] * Case.n[3]
Longest == CHOOSE x \in {s.tot[f] : f \in 1..Case.nf} : \A f \in 1..Case.nf : s.tot[f] <= x
Abs(x) == IF x < 0 THEN -x ELSE x
RowBad(f, r) ==
  (IF <<r[1], r[2], r[3]>> = Table[f] THEN {} ELSE {<<"table", f, r, Table[f]>>})
  \cup (IF s.tot[f] = 0 \/ s.cnt[f] > 4000000 \div Size THEN {}
        ELSE IF r[4] > 2000000000 \div s.tot[f] THEN {<<"mlups", f, r[4]>>}
        ELSE IF r[4] = (200 * s.cnt[f] * Size + s.tot[f]) \div (2 * s.tot[f])
           \/ Abs(r[4] * s.tot[f] - 100 * s.cnt[f] * Size) <= s.tot[f] \div 2 + 1 + (s.cnt[f] * Size) \div 1000 THEN {} ELSE {<<"mlups", f, r[4]>>})
  \cup (IF Longest = 0 \/ Longest > 900000 THEN {} ELSE IF r[5] \notin 0..1000 THEN {<<"percent", f, r[5]>>}
        ELSE IF 2 * Abs(r[5] * Longest - 1000 * s.tot[f]) <= Longest + 2 THEN {} ELSE {<<"percent", f, r[5]>>})
Event ==
  /\ ie > 0 /\ ie <= Len(Case.evs)
  /\ CASE Ev.op = "call"  -> Conclude({}, Enter(s, Ev.f))
       [] Ev.op = "tick"  -> Conclude({}, Tick(s, Ev.n))
       \* what the function returned, and what it raised, reach the caller unchanged
       [] Ev.op = "ret"   -> Conclude(IF Ev.same THEN {} ELSE {<<"result", 0>>}, Leave(s, FALSE))
       [] Ev.op = "raise" -> Conclude(IF Ev.same THEN {} ELSE {<<"exception", 0>>}, Leave(s, TRUE))
       [] Ev.op = "catch" -> Conclude({}, Catch(s))
       [] Ev.op = "args"  -> Conclude(IF Ev.same THEN {} ELSE {<<"arguments", 0>>}, s)
       [] Ev.op = "table" -> Conclude(UNION {RowBad(f, Ev.rows[f]) : f \in 1..Case.nf}, s)
       [] Ev.op = "lost"  -> Conclude({<<"lost", Ev.msg>>}, s)
EndCase == ie > 0 /\ ie > Len(Case.evs) /\ NextCase
Init == ic = 1 /\ ie = 0 /\ s = <<>>
Next == ic <= Len(Cases) /\ (Load \/ Event \/ EndCase)
Spec == Init /\ [][Next]_vars
View == <<ic, ie>>
Done == Say(<<"END", TLCGet("distinct")>>)
=============================================================================
