------------------------------- MODULE SrlConc ------------------------------
(***************************************************************************)
(* What calls made at the same time have in common: the cache of struct    *)
(* fields of the encoder behind the package-level functions, and the pools *)
(* of compression writers.                                                 *)
(* Each caller looks its type up, on a miss works the entry out and stores *)
(* it, then takes a writer from the pool, writes its own data, reads the   *)
(* result and gives the writer back.                                       *)
(* Cache: "atomic" (sync.Map: load and store take effect at once) or       *)
(* "plain" (a bare Go map: an access lasts from a begin to an end step).   *)
(* GiveBack: "last" (after the result has been taken) or "early".          *)
(* TLC: all properties hold for atomic/last, NoRace fails for plain, and   *)
(* OwnResult fails for early.                                              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Callers, Types, Cache, GiveBack
VARIABLES pc, want, entry, cache, acc, pool, writer, held, result
vars == <<pc, want, entry, cache, acc, pool, writer, held, result>>
\* acc: caller -> "r", "w" or "" (an access to the cache is under way)
\* pool: idle writers; writer: writer -> whose data is in it; held: caller -> writer
None == 0
Writers == 1..Cardinality(Callers)
EntryOf(t) == <<"fields of", t>>
Init == /\ pc = [c \in Callers |-> "load"] /\ want \in [Callers -> Types]
        /\ entry = [c \in Callers |-> <<>>] /\ cache = [t \in Types |-> <<>>]
        /\ acc = [c \in Callers |-> ""] /\ pool = {} /\ writer = [x \in Writers |-> None]
        /\ held = [c \in Callers |-> None] /\ result = [c \in Callers |-> None]

Go(c, l) == pc' = [pc EXCEPT ![c] = l]
Begin(c, how, l) == /\ acc' = [acc EXCEPT ![c] = how] /\ Go(c, l)
                    /\ UNCHANGED <<want, entry, cache, pool, writer, held, result>>
Load(c) == /\ pc[c] = "load"
           /\ IF Cache = "plain" /\ acc[c] = "" THEN Begin(c, "r", "load")
              ELSE /\ acc' = [acc EXCEPT ![c] = ""]
                   /\ entry' = [entry EXCEPT ![c] = cache[want[c]]]
                   /\ Go(c, IF cache[want[c]] = <<>> THEN "make" ELSE "take")
                   /\ UNCHANGED <<want, cache, pool, writer, held, result>>
Make(c) == /\ pc[c] = "make" /\ entry' = [entry EXCEPT ![c] = EntryOf(want[c])] /\ Go(c, "store")
           /\ UNCHANGED <<want, cache, acc, pool, writer, held, result>>
Store(c) == /\ pc[c] = "store"
            /\ IF Cache = "plain" /\ acc[c] = "" THEN Begin(c, "w", "store")
               ELSE /\ acc' = [acc EXCEPT ![c] = ""]
                    /\ cache' = [cache EXCEPT ![want[c]] = entry[c]]
                    /\ Go(c, "take")
                    /\ UNCHANGED <<want, entry, pool, writer, held, result>>
\* an idle writer, or a new one
Take(c) == /\ pc[c] = "take" /\ Go(c, "write")
           /\ \E x \in pool \cup {CHOOSE x \in Writers : x \notin pool /\ \A d \in Callers : held[d] # x} :
                 held' = [held EXCEPT ![c] = x] /\ pool' = pool \ {x}
           /\ UNCHANGED <<want, entry, cache, acc, writer, result>>
Write(c) == /\ pc[c] = "write" /\ writer' = [writer EXCEPT ![held[c]] = c]
            /\ IF GiveBack = "early" THEN pool' = pool \cup {held[c]} ELSE UNCHANGED pool
            /\ Go(c, "read")
            /\ UNCHANGED <<want, entry, cache, acc, held, result>>
Read(c) == /\ pc[c] = "read" /\ result' = [result EXCEPT ![c] = writer[held[c]]]
           /\ pool' = pool \cup {held[c]} /\ held' = [held EXCEPT ![c] = None] /\ Go(c, "done")
           /\ UNCHANGED <<want, entry, cache, acc, writer>>
Next == \E c \in Callers : Load(c) \/ Make(c) \/ Store(c) \/ Take(c) \/ Write(c) \/ Read(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* no access to the cache while another one writes
NoRace == \A c, d \in Callers : c # d /\ acc[c] = "w" => acc[d] = ""
RightEntry == \A c \in Callers : pc[c] \in {"take", "write", "read", "done"} => entry[c] = EntryOf(want[c])
Exclusive == GiveBack = "last" => \A c, d \in Callers : c # d /\ held[c] # None => held[c] # held[d]
OwnResult == \A c \in Callers : pc[c] = "done" => result[c] = c
AllDone == <>(\A c \in Callers : pc[c] = "done")
=============================================================================
