------------------------------ MODULE SrlAlloc ------------------------------
(***************************************************************************)
(* Why decoding needs no more memory than there are bytes.                 *)
(*                                                                         *)
(* A body of L bytes is read item by item; what the bytes are is left open *)
(* (every possible document is a behaviour). An ARRAY tag claims n         *)
(* elements, for which room is made at once. The claim is accepted only if *)
(* the bytes left could hold them besides all elements that are still      *)
(* pending in the arrays around it; a COPY goes back to an earlier byte    *)
(* with a count of its own, and is not met inside a COPY.                  *)
(*   pos    bytes read        pend   elements still to come (this level)   *)
(*   stk    elements left in each open array                               *)
(*   room   elements room was made for                                     *)
(*   saved  where to go on after a COPY: <<pos, pend, stk>>                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS L, MaxCopy, Counted      \* Counted: pending elements are counted
VARIABLES pos, pend, stk, room, saved, ncopy, st
vars == <<pos, pend, stk, room, saved, ncopy, st>>

Init == pos = 0 /\ pend = 0 /\ stk = <<>> /\ room = 0 /\ saved = <<>> /\ ncopy = 0 /\ st = "run"

RECURSIVE Closed(_)
\* one item is complete: close what it completes
Closed(q) == IF q = <<>> THEN <<>>
             ELSE IF q[Len(q)] = 0 THEN Closed(SubSeq(q, 1, Len(q) - 1)) ELSE q
\* the next element of the innermost array begins
Begin(q) == IF q = <<>> THEN q ELSE [q EXCEPT ![Len(q)] = @ - 1]
Left == IF stk = <<>> THEN pend ELSE pend - 1

Fail == st' = "error" /\ UNCHANGED <<pos, pend, stk, room, saved, ncopy>>
Finish(p, pe, q, ro) ==
    LET c == Closed(q) IN
    /\ room' = ro
    /\ UNCHANGED ncopy
    /\ IF c # <<>> THEN pos' = p /\ pend' = pe /\ stk' = c /\ UNCHANGED <<saved, st>>
       ELSE IF saved = <<>> THEN pos' = p /\ pend' = pe /\ stk' = c /\ st' = "done" /\ UNCHANGED saved
       ELSE \* back behind the COPY
            LET c2 == Closed(saved[3]) IN
            /\ pos' = saved[1] /\ pend' = saved[2] /\ stk' = c2 /\ saved' = <<>>
            /\ st' = IF c2 = <<>> THEN "done" ELSE "run"

Scalar == \E len \in 1..3 :
    IF pos + len > L THEN Fail
    ELSE Finish(pos + len, Left, Begin(stk), room)

Array == \E n \in 0..L :
    IF pos + 2 > L \/ pos + 2 + n + (IF Counted THEN Left ELSE 0) > L THEN Fail
    ELSE IF n = 0 THEN Finish(pos + 2, Left, Begin(stk), room)
    ELSE /\ pos' = pos + 2 /\ pend' = Left + n /\ stk' = Append(Begin(stk), n)
         /\ room' = room + n /\ UNCHANGED <<saved, ncopy, st>>

Copy ==
    /\ saved = <<>> /\ ncopy < MaxCopy
    /\ \E o \in 0..(pos - 1) :
         IF pos + 2 > L THEN Fail
         ELSE /\ saved' = <<pos + 2, Left, Begin(stk)>>
              /\ pos' = o /\ pend' = 0 /\ stk' = <<>>
              /\ ncopy' = ncopy + 1 /\ UNCHANGED <<room, st>>

Next == st = "run" /\ (Scalar \/ Array \/ Copy)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
PendingRight == pend = Sum(stk)
Bounded == room <= L * (1 + ncopy)
Ends == <>(st # "run")
=============================================================================
