------------------------------- MODULE Verdict -------------------------------
(* Verdicts of the trace specifications: one line of JSON per verdict. *)
EXTENDS TLC, Json, Sequences
Say(x) == PrintT("@@" \o ToJson(x))
=============================================================================
