---------------------------- MODULE MC_Interleave ----------------------------
(***************************************************************************)
(* Several simulations living in one program.  Each has its own content    *)
(* (here: the sequence of the operations it received), created from a      *)
(* dictionary which is never written.  All the interleavings of their      *)
(* operations are explored; the complete ones are replayed in the code,    *)
(* where each simulation is then checked against T_Sim as if it was alone. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Verdict
CONSTANTS NS, Len1      \* simulations, operations of each
Sims == 1..NS
VARIABLES content, dict, sched
vars == <<content, dict, sched>>
Init == content = [s \in Sims |-> <<>>] /\ dict = "as given" /\ sched = <<>>
Do(s) ==
  /\ Len(content[s]) < Len1
  /\ content[s] = <<>> => \A r \in 1..(s-1) : content[r] # <<>>      \* up to renaming
  /\ content' = [content EXCEPT ![s] = Append(@, IF @ = <<>> THEN "new" ELSE "op")]
  /\ sched' = Append(sched, s)
  /\ UNCHANGED dict
Next == \E s \in Sims : Do(s)
Spec == Init /\ [][Next]_vars
Only(s) == SelectSeq(sched, LAMBDA x : x = s)
Alone == \A s \in Sims : Len(content[s]) = Len(Only(s)) /\ (content[s] # <<>> => content[s][1] = "new")
Others == [][\A s \in Sims : content'[s] # content[s] => \A r \in Sims \ {s} : content'[r] = content[r]]_vars
DictKept == dict = "as given"
Complete == Len(sched) = NS * Len1 => Say(<<"GEN", sched>>)
=============================================================================
