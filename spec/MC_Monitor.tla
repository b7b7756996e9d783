----------------------------- MODULE MC_Monitor -----------------------------
(***************************************************************************)
(* All the trees of calls of at most MaxLen operations: calls, time that   *)
(* passes, returns, exceptions that go through some frames before they are *)
(* caught.  The complete histories are replayed in the code.               *)
(***************************************************************************)
EXTENDS Monitor, Verdict
CONSTANTS NF, MaxLen, MaxDepth
VARIABLES s, hist, inside      \* inside: time spent in some monitored call
vars == <<s, hist, inside>>
Ticks == Len(SelectSeq(hist, LAMBDA o : o[1] = "tick"))
LastOp == IF hist = <<>> THEN "none" ELSE hist[Len(hist)][1]
Do(o) == hist' = Append(hist, o)
Room == Len(hist) + Len(s.stack) + (IF s.exc THEN 1 ELSE 0) < MaxLen
Call == /\ ~s.exc /\ Len(s.stack) < MaxDepth /\ Len(hist) + Len(s.stack) + 2 <= MaxLen
        /\ \E f \in 1..NF : /\ \A g \in 1..(f-1) : \E i \in 1..Len(hist) : hist[i] = <<"call", g>>   \* up to renaming
                            /\ s' = Enter(s, f) /\ Do(<<"call", f>>)
        /\ UNCHANGED inside
Time == /\ ~s.exc /\ LastOp # "tick" /\ Room /\ (hist = <<>> => FALSE)
        /\ LET n == 2 ^ Ticks IN s' = Tick(s, n) /\ Do(<<"tick", n>>) /\ inside' = inside + (IF s.stack = <<>> THEN 0 ELSE n)
Ret  == /\ ~s.exc /\ s.stack # <<>> /\ s' = Leave(s, FALSE) /\ Do(<<"ret", 0>>) /\ UNCHANGED inside
Raise == /\ ~s.exc /\ s.stack # <<>> /\ Room /\ s' = Leave(s, TRUE) /\ Do(<<"raise", 0>>) /\ UNCHANGED inside
Prop == /\ s.exc /\ s.stack # <<>> /\ s' = Leave(s, TRUE) /\ Do(<<"prop", 0>>) /\ UNCHANGED inside
Caught == /\ s.exc /\ Len(hist) + Len(s.stack) < MaxLen /\ s' = Catch(s) /\ Do(<<"catch", 0>>) /\ UNCHANGED inside
Init == s = Fresh(NF) /\ hist = <<>> /\ inside = 0
Step == Call \/ Time \/ Ret \/ Raise \/ Prop \/ Caught
Next == Step
Spec == Init /\ [][Next]_vars

Sum(h) == FoldLeft(LAMBDA a, x : a + x, 0, h)
Running == {i \in 1..Len(s.stack) : TRUE}
\* the time of a running call that is neither charged to a returned callee nor to the running callee
RunSelf(i) == (IF i = Len(s.stack) THEN s.clock ELSE s.stack[i+1].t0) - s.stack[i].t0 - s.stack[i].sub
Elapsed == Sum(s.slf) + Sum([i \in 1..Len(s.stack) |-> RunSelf(i)]) = inside
NonNegative == \A f \in 1..NF : s.slf[f] >= 0 /\ s.tot[f] >= s.slf[f]
OneEach == \A f \in 1..NF : s.cnt[f] + Cardinality({i \in Running : s.stack[i].f = f})
                              = Cardinality({i \in 1..Len(hist) : hist[i] = <<"call", f>>})
Behaviour == s.stack = <<>> /\ ~s.exc /\ Len(hist) >= MaxLen - 1 /\ LastOp # "tick" => Say(<<"GEN", hist>>)
=============================================================================
