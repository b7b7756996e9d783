------------------------------ MODULE Monitor ------------------------------
(***************************************************************************)
(* Accounting of the monitored functions.  A state is the clock, the stack *)
(* of running calls (function, date of entry, time spent in the monitored  *)
(* calls made directly) and the table (number of calls, total and self     *)
(* time) of the calls that have returned, normally or not.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Fresh(nf) == [clock |-> 0, stack |-> <<>>, exc |-> FALSE,
              cnt |-> [f \in 1..nf |-> 0], tot |-> [f \in 1..nf |-> 0], slf |-> [f \in 1..nf |-> 0]]
Top(s) == s.stack[Len(s.stack)]

Enter(s, f) == [s EXCEPT !.stack = Append(@, [f |-> f, t0 |-> s.clock, sub |-> 0])]
Tick(s, n) == [s EXCEPT !.clock = @ + n]
\* the running call ends: its duration is charged once to its function, and once to its caller
Leave(s, exc) ==
  LET a == Top(s)
      d == s.clock - a.t0
      n == Len(s.stack)
      below == SubSeq(s.stack, 1, n - 1)
  IN [s EXCEPT !.stack = IF n = 1 THEN <<>> ELSE [below EXCEPT ![n-1].sub = @ + d],
               !.exc = exc, !.cnt[a.f] = @ + 1, !.tot[a.f] = @ + d, !.slf[a.f] = @ + d - a.sub]
Catch(s) == [s EXCEPT !.exc = FALSE]
=============================================================================
