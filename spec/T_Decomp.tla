------------------------------ MODULE T_Decomp ------------------------------
(***************************************************************************)
(* Trace specification for decompressing whole documents: each record is   *)
(* one call DecompressDocument(dst, d) with a destination of length dst    *)
(* and capacity cap (-1: nil), what it returned (ok, err, out), whether    *)
(* the source was left alone (same) and whether out survived the source's  *)
(* being overwritten (indep).                                              *)
(***************************************************************************)
EXTENDS SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, ph
Init == k \in 1..N /\ ph = "call"

\* the same document, uncompressed
Uncompressed(D, infl) ==
    IF DocType(D) = RAW THEN D
    ELSE Magic(D) \o <<Version(D)>> \o SubSeq(D, 6, Suffix(D).body - 1) \o infl.b

Verdict(r) ==
    IF r.err = "panic" THEN "BAD panic"
    ELSE IF ~r.same THEN "BAD source modified"
    ELSE IF ~r.indep THEN "BAD result shares memory with the source"
    ELSE IF ~HeaderOk(r.d) THEN
         IF r.ok THEN "BAD accepted (header)"
         ELSE IF r.err \in HeaderFaults(r.d) THEN "inv header" ELSE "BAD error kind"
    ELSE IF ~InflAgrees(r.d, r.infl) THEN "HARNESS inflation"
    ELSE IF DocType(r.d) = ZSTD /\ ~r.zstd THEN (IF r.ok THEN "BAD no zstd here" ELSE "inv zstd")
    ELSE LET b == BodyOf(r.d, r.infl) IN
         CASE b.st = "bad" -> IF r.ok THEN "BAD accepted (compression)" ELSE "inv compression"
           [] b.st = "odd" -> "loose compression"
           [] b.st = "raw" ->
                IF ~r.ok THEN "BAD rejected"
                ELSE IF r.out = Uncompressed(r.d, r.infl) THEN "ok"
                ELSE "BAD result"

Judge == /\ ph = "call" /\ ph' = "judged" /\ k' = k
         /\ PrintT("R " \o ToString(k) \o " " \o Verdict(Recs[k]))
Next == Judge
Spec == Init /\ [][Next]_<<k, ph>>
MachineSane == TRUE
=============================================================================
