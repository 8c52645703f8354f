------------------------------- MODULE T_Hist -------------------------------
(***************************************************************************)
(* Trace specification for histories: encoders and decoders used again and *)
(* again, reconfigured in between, and a caller that keeps everything it   *)
(* was given and overwrites some of it.                                    *)
(* held: digests of the things the caller has. A record gives for every    *)
(* operation the outcome (out) of task task, the things it added (made)    *)
(* and the digests of all things afterwards (snap); alone gives the        *)
(* outcomes of the tasks when performed with objects of their own, on      *)
(* arguments of their own.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, i, held, asked, ph
vars == <<k, i, held, asked, ph>>
Init == k \in 1..N /\ i = 1 /\ held = <<>> /\ asked = {} /\ ph = "run"

Rec == Recs[k]
Op == Rec.ops[i]
Judged(v) == /\ ph' = "judged" /\ UNCHANGED <<k, i, held, asked>>
             /\ PrintT("R " \o ToString(k) \o " " \o v)

\* what the caller has after the operation
After == (IF Op.op = "scribble" THEN [held EXCEPT ![Op.h] = Op.new] ELSE held) \o Op.made
Changed == {h \in 1..Len(After) : Op.snap[h] # After[h]}
Name(h) == Rec.names[h]

\* a call's outcome is that of the task, whatever happened before
Pure == Op.op = "call" /\ Op.task # 0 => Op.out = Rec.alone[Op.task]

Step ==
    /\ ph = "run" /\ i <= Len(Rec.ops)
    /\ IF Len(Op.snap) # Len(After) THEN Judged("HARNESS things")
       ELSE IF ~Pure THEN Judged("BAD outcome depends on the past: " \o Op.what)
       ELSE IF Changed # {} THEN
            Judged("BAD " \o Op.op \o " (" \o Op.what \o ") changed another: " \o ToString({Name(h) : h \in Changed}))
       ELSE /\ i' = i + 1 /\ held' = After
            /\ asked' = asked \cup {Op.task}
            /\ UNCHANGED <<k, ph>>
\* nothing ever changes but by the caller's hand
End == /\ ph = "run" /\ i > Len(Rec.ops)
       /\ Judged(IF Len(Rec.ops) = 0 THEN "loose nothing" ELSE "ok")
Next == Step \/ End
Spec == Init /\ [][Next]_vars
MachineSane == i <= Len(Rec.ops) + 1
=============================================================================
