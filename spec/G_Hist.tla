------------------------------- MODULE G_Hist -------------------------------
(***************************************************************************)
(* Generator of histories. Letters: 1 encode, 2 encode what cannot be, 3   *)
(* encode header and body, 4 decode, 5 decode a damaged document, 6 decode *)
(* into a typed variable, 7 decode a header, 8 decompress, 9 merge,        *)
(* 10 ask again for something asked before, 11 overwrite or change a thing *)
(* one has, 13 configure an object anew.                                   *)
(* State: how many things the caller has, whether something was asked.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxLen, Letters
VARIABLES hist, asked
vars == <<hist, asked>>
Init == hist = <<>> /\ asked = FALSE
Calls == 1..9
Do(x) == /\ x \in {10, 11} => asked
         /\ Len(hist) = MaxLen - 1 => x # 13    \* of no consequence
         /\ asked' = (asked \/ x \in Calls)
         /\ hist' = Append(hist, x)
Next == /\ Len(hist) < MaxLen
        /\ \E x \in Letters : Do(x)
        /\ Len(hist') = MaxLen => PrintT("G " \o ToString(hist'))
Spec == Init /\ [][Next]_vars
=============================================================================
