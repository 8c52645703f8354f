------------------------------ MODULE T_Safe -------------------------------
(***************************************************************************)
(* What any call on any bytes may cost. Each record is one call,           *)
(*   entry  which, genm how the document was made                          *)
(*   len, infl  bytes given and what they inflate to                       *)
(*   copy   an upper bound for the COPY tags met                           *)
(*   alloc  kilobytes allocated during the call                            *)
(*   fam, depth   the document nests that many of these, if genm = "deep"  *)
(*   ok, err      the outcome                                              *)
(* A call that ends the process or does not return leaves no record: the   *)
(* driver's caller reports it.                                             *)
(*                                                                         *)
(* SrlAlloc shows why the memory is bounded by the bytes there are.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, judged
vars == <<k, judged>>

\* kilobytes a call may allocate: whatever it needs for itself, and so much for
\* each byte there is
Base == 512
Factor(r) == CASE r.entry = "looks" -> 0
               [] r.entry = "decompress" -> 8
               [] r.entry = "append" -> 160
               [] OTHER -> 400
Kb(n) == n \div 1024 + 1
There(r) == Kb(r.len) + Kb(r.infl)
Bounded(r) == \/ r.copy > 200
              \/ r.alloc <= Base + Factor(r) * There(r) * (1 + r.copy)

\* documents that are nothing but nested, and valid
Plain == {"REFN", "ARRAYREF", "HASHREF", "ARRAY", "HASH", "OBJECT", "WEAKEN", "REFN ARRAY", "REFN HASH",
          "OBJECT HASHREF", "tracked REFN", "tracked ARRAY"}
\* calls that build what is nested
Builds == {"iface", "perl", "nori"}
Deep(r) == r.genm = "deep" /\ r.fam \in Plain
\* there is a bound, and it is not small
TooDeep == 1000000
Modest == 1000
DepthWrong(r) ==
    IF ~Deep(r) THEN ""
    ELSE IF r.entry \in Builds \cup {"typed", "header", "both"} /\ r.depth >= TooDeep /\ r.ok
            /\ ~(r.entry = "header" /\ r.ver = 1) THEN "nested without bound"
    ELSE IF r.entry \in Builds /\ r.depth <= Modest /\ ~r.ok THEN "refused at a modest depth"
    ELSE IF r.entry \in Builds /\ r.ok
            /\ \E j \in 1..N : LET x == Recs[j] IN
                 x.genm = "deep" /\ x.fam = r.fam /\ x.entry = r.entry /\ x.depth < r.depth /\ ~x.ok
         THEN "refused at a smaller depth"
    ELSE ""

Verdict(r) ==
    IF r.err = "panic" THEN "BAD panic"
    ELSE IF r.err = "input modified" THEN "BAD the document was modified"
    ELSE IF ~Bounded(r) THEN "BAD allocates too much"
    ELSE IF DepthWrong(r) # "" THEN "BAD " \o DepthWrong(r)
    ELSE IF r.ok THEN "ok" ELSE "inv"

Init == k \in 1..N /\ judged = FALSE
Judge == ~judged /\ judged' = TRUE /\ k' = k
         /\ PrintT("R " \o ToString(k) \o " " \o Verdict(Recs[k]))
Spec == Init /\ [][Judge]_vars
=============================================================================
