------------------------------- MODULE T_Conc -------------------------------
(***************************************************************************)
(* Trace specification for calls made at the same time. A record gives the *)
(* tasks and what comes of each when it is performed alone; what the       *)
(* goroutines did, call by call (what: the task, runs: the outcome).       *)
(* Calls of distinct objects and of the package-level functions share      *)
(* nothing that may be observed, so every interleaving gives the outcomes  *)
(* of the calls alone: any order of the goroutines' calls is a behaviour,  *)
(* and one per goroutine after the other is checked.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, next, ph   \* next: goroutine -> its next call
vars == <<k, next, ph>>
Init == /\ k \in 1..N /\ ph = "run"
        /\ next = [g \in 1..Len(Recs[k].runs) |-> 1]
Rec == Recs[k]
Judged(v) == ph' = "judged" /\ UNCHANGED <<k, next>> /\ PrintT("R " \o ToString(k) \o " " \o v)
Left == {g \in 1..Len(Rec.runs) : next[g] <= Len(Rec.runs[g])}
Call(g) ==
    LET t == Rec.what[g][next[g]] IN
    IF Rec.runs[g][next[g]] # Rec.alone[t]
    THEN Judged("BAD another outcome than alone: " \o Rec.tasks[t])
    ELSE next' = [next EXCEPT ![g] = @ + 1] /\ UNCHANGED <<k, ph>>
Step == ph = "run" /\ Left # {} /\ Call(CHOOSE g \in Left : \A h \in Left : g <= h)
End == /\ ph = "run" /\ Left = {}
       /\ Judged(IF Rec.same THEN "ok" ELSE "BAD an argument was modified")
Next == Step \/ End
Spec == Init /\ [][Next]_vars
MachineSane == TRUE
=============================================================================
