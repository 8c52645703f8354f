------------------------------- MODULE SrlHist ------------------------------
(***************************************************************************)
(* Objects used again and again, and the caller's memory.                  *)
(* An Encoder or Decoder has a configuration and, while a call runs, a     *)
(* scratch state (offsets seen, nesting, pending claims).  A call works    *)
(* through the steps of its argument; at each it may find a fault and give *)
(* up.  What the specification demands: the outcome is a function of       *)
(* configuration and argument; what the caller has is changed by nobody    *)
(* but the caller.                                                         *)
(* ResetAt says when the scratch state is cleared: "start" of every call   *)
(* (as the code does), or at its "end", which a call that gives up never   *)
(* reaches (TLC shows that Pure fails then).                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Objects, MaxCalls, ResetAt
\* arguments: what each step leaves in the scratch state, and where it fails
\* (0: nowhere); a step fails as well if it finds its own mark there already
Args == { <<(<<1, 2>>), 0>>, <<(<<1>>), 0>>, <<(<<2, 1>>), 2>>, <<(<<2>>), 0>>, <<(<<1, 2>>), 1>> }
VARIABLES scratch,   \* object -> set of marks
          run,       \* object -> <<argument, step>> or <<>>
          out,       \* set of <<argument, outcome>> seen so far
          calls
vars == <<scratch, run, out, calls>>

Init == /\ scratch = [o \in Objects |-> {}] /\ run = [o \in Objects |-> <<>>]
        /\ out = {} /\ calls = 0
Call(o, a) == /\ run[o] = <<>> /\ calls < MaxCalls
              /\ calls' = calls + 1
              /\ run' = [run EXCEPT ![o] = <<a, 1>>]
              /\ scratch' = IF ResetAt = "start" THEN [scratch EXCEPT ![o] = {}] ELSE scratch
              /\ UNCHANGED out
Ends(o, a, how) == /\ run' = [run EXCEPT ![o] = <<>>]
                   /\ out' = out \cup {<<a, how>>}
                   /\ UNCHANGED calls
Step(o) == /\ run[o] # <<>>
           /\ LET a == run[o][1]
                  i == run[o][2]
              IN IF i > Len(a[1])
                 THEN /\ Ends(o, a, "ok")
                      /\ scratch' = IF ResetAt = "end" THEN [scratch EXCEPT ![o] = {}] ELSE scratch
                 ELSE IF i = a[2] \/ a[1][i] \in scratch[o]
                 THEN Ends(o, a, IF i = a[2] THEN "fault" ELSE "clash") /\ UNCHANGED scratch
                 ELSE /\ scratch' = [scratch EXCEPT ![o] = @ \cup {a[1][i]}]
                      /\ run' = [run EXCEPT ![o] = <<a, i + 1>>]
                      /\ UNCHANGED <<out, calls>>
Next == \E o \in Objects : Step(o) \/ \E a \in Args : Call(o, a)
Spec == Init /\ [][Next]_vars

\* one outcome for one argument, whatever went before
Pure == \A x, y \in out : x[1] = y[1] => x[2] = y[2]
=============================================================================
