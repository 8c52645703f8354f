------------------------------- MODULE G_Merge ------------------------------
(***************************************************************************)
(* The life cycle of a merger, and generator of call sequences for it.     *)
(* Letters of hist: 1 append a valid document, 2 one whose top level fits  *)
(* flat mode, 3 one that is found malformed only near its end, 4 a damaged *)
(* one, 5 a document appended (or refused) before, 6 finish.               *)
(* Every sequence of MaxLen calls is printed and replayed into the real    *)
(* merger, whose behaviour T_Merge judges.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxLen
VARIABLES hist, docs, fin
vars == <<hist, docs, fin>>

Init == hist = <<>> /\ docs = 0 /\ fin = FALSE

Good == {1, 2}
Append_(x) == /\ x \in (IF fin THEN {1, 3} ELSE 1..5)
              /\ x = 5 => hist # <<>>
              /\ docs' = IF x \in Good /\ ~fin THEN docs + 1 ELSE docs
              /\ UNCHANGED fin /\ hist' = Append(hist, x)
Finish == /\ fin' = TRUE /\ docs' = docs /\ hist' = Append(hist, 6)

Next == /\ Len(hist) < MaxLen
        /\ (\E x \in 1..5 : Append_(x)) \/ Finish
        /\ Len(hist') = MaxLen => PrintT("G " \o ToString(hist'))
Spec == Init /\ [][Next]_vars

\* nothing is added to a finished merger, and it stays finished
Frozen == [][fin => fin' /\ docs' = docs]_vars
Bounded == docs <= Len(hist)
=============================================================================
