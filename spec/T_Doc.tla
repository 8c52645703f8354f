------------------------------- MODULE T_Doc --------------------------------
(***************************************************************************)
(* Trace specification for decoding: each record is one call of the real   *)
(* decoder on one document,                                                *)
(*   d     the document       part  "body", "head" (user data), "both"     *)
(*   bdst, hdst  0: destinations, others: values that cannot be ones         *)
(*   mem   what is wrong with the memory: "" if the document is as it was  *)
(*         and writing into it later leaves the values as they are         *)
(*   kept  the latter, and destinations not reached, were left alone         *)
(*   perl, nori  decoder mode infl  independent inflation of the blob      *)
(*   ok, err, val, hval   what the call returned   looks LooksLikeSereal   *)
(* The document is read by the machine of SrlBody step by step, with the   *)
(* machine's invariants checked in every state; the final state judges     *)
(* the record.                                                             *)
(***************************************************************************)
EXTENDS SrlGoView, SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k,       \* which record
          ph,      \* "env" reading the envelope, "head", "body", "judged"
          B,       \* the bytes being parsed
          s        \* the machine
vars == <<k, ph, B, s>>

Init == k \in 1..N /\ ph = "env" /\ B = <<>> /\ s = BodyInit

Say(v) == PrintT("R " \o ToString(k) \o " " \o v)
Mode(r) == [perl |-> r.perl, nori |-> r.nori]

Judged(v) == ph' = "judged" /\ UNCHANGED <<k, B, s>> /\ Say(v)
Read(what, bytes) == ph' = what /\ B' = bytes /\ s' = BodyInit /\ UNCHANGED k

WantsHead(r) == r.part \in {"head", "both"}
WantsBody(r) == r.part \in {"body", "both"}
Bad(r, w) == Judged(IF r.ok THEN "BAD accepted (" \o w \o ")" ELSE "inv " \o w)
Nil == << <<K_NIL>> >>

\* what is no pointer, or a nil one, is refused as soon as there is something to
\* be stored, with the error documented for it
NoDestination(r, e) ==
    Judged(IF r.ok THEN "BAD no destination accepted"
           ELSE IF r.err # e THEN "BAD error kind " \o r.err
           ELSE "inv " \o e)

\* hand the body to the machine, if the envelope lets it through
BodyNext(r) ==
    LET b == BodyOf(r.d, r.infl) IN
    CASE b.st = "bad" -> Bad(r, "compression")
      [] b.st = "odd" -> Judged("loose compression")
      [] b.st = "raw" ->
           IF DocType(r.d) = ZSTD /\ ~r.zstd THEN Bad(r, "no zstd here")
           ELSE IF r.bdst # 0 THEN NoDestination(r, "body pointer")
           ELSE Read("body", b.B)

\* whatever can be decoded looks like Sereal, and what looks like it has a
\* magic that fits the version
LooksWrong(r) ==
    LET D == r.d IN
    IF Len(D) < 6 THEN r.looks
    ELSE IF r.ok /\ WantsBody(r) /\ ~r.looks THEN TRUE
    ELSE r.looks /\ ~MagicFits(D)

\* the envelope decides, or hands bytes to the machine
Envelope ==
    /\ ph = "env"
    /\ LET r == Recs[k]
           D == r.d
       IN IF LooksWrong(r) THEN Judged("BAD LooksLikeSereal")
          ELSE IF ~r.kept THEN Judged("BAD stored where it should not")
          ELSE IF r.mem # "" THEN Judged("BAD memory: " \o r.mem)
          ELSE IF ~HeaderOk(D) THEN
             IF r.ok THEN Judged("BAD accepted (header)")
             ELSE IF r.err \in HeaderFaults(D) THEN Judged("inv header")
             ELSE Judged("BAD error kind " \o r.err)
          ELSE IF ~InflAgrees(D, r.infl) THEN Judged("HARNESS inflation")
          ELSE IF ~WantsHead(r) THEN BodyNext(r)
          ELSE IF Version(D) = 1 THEN Judged("loose v1 header")
          ELSE IF Suffix(D).size > 0 /\ r.hdst # 0 THEN NoDestination(r, "header pointer")
          ELSE IF HasUserData(D) THEN Read("head", UserData(D))
          ELSE IF r.ok /\ r.hval # Nil THEN Judged("BAD header value") \* must be left alone
          ELSE IF WantsBody(r) THEN BodyNext(r)
          ELSE Judged(IF ~r.ok THEN "BAD rejected (no user data)" ELSE "ok nohead")

Sh(r) == IF ph = "head" THEN 0 ELSE Shift(r.d)

Parse == /\ ph \in {"head", "body"} /\ s.st = "run"
         /\ s' = Steps(B, s, Sh(Recs[k]))
         /\ UNCHANGED <<k, ph, B>>

\* "" if nothing is wrong so far
Verdict(r, z, val) ==
    IF ~Binding(z, Mode(r)) THEN "loose"
    ELSE IF z.st = "err" THEN
         IF r.ok THEN "BAD accepted (" \o z.why \o ")" ELSE "inv " \o z.why
    ELSE IF ~r.ok THEN ""
    ELSE IF Tokens(z.nodes, Root(z), Mode(r)) = val THEN ""
    ELSE "BAD value: expected " \o ToString(Tokens(z.nodes, Root(z), Mode(r)))

Finish ==
    /\ ph \in {"head", "body"} /\ s.st # "run"
    /\ LET r == Recs[k]
           x == Verdict(r, s, IF ph = "head" THEN r.hval ELSE r.val)
       IN IF x # "" THEN Judged(x)
          ELSE IF ph = "head" /\ WantsBody(r) THEN BodyNext(r)
          ELSE Judged(IF r.ok THEN "ok" ELSE "BAD rejected (" \o r.err \o ")")

Next == Envelope \/ Parse \/ Finish
Spec == Init /\ [][Next]_vars

MachineSane == ph \in {"head", "body"} => Sane(B, s, Sh(Recs[k]))
=============================================================================
