---------------------------- MODULE SrlEnvelope -----------------------------
(***************************************************************************)
(* The document around the body: magic, version and type byte, header      *)
(* suffix with optional user data, and the framing of compressed bodies.   *)
(* Positions are 1-based in the document D.                                *)
(***************************************************************************)
EXTENDS SrlBody

MagicOld  == <<61, 115, 114, 108>>          \* =srl
MagicNew  == <<61, 243, 114, 108>>          \* =\xF3rl
MagicUtf8 == <<61, 195, 179, 114>>          \* =\xC3\xB3r
RAW == 0  SNAPPY == 1  SNAPPYINC == 2  ZLIB == 3  ZSTD == 4

Magic(D)   == SubSeq(D, 1, 4)
Version(D) == D[5] % 16
DocType(D) == D[5] \div 16

\* does the magic fit the version?
MagicFits(D) == \/ Magic(D) = MagicOld /\ Version(D) \in {1, 2}
                \/ Magic(D) = MagicNew /\ Version(D) >= 3

\* What is wrong with the first six or more bytes. The names are those of the
\* errors the library exports for the condition ("other": no exported error).
\* A magic mangled by UTF-8 encoding is always reported as such; otherwise the
\* order in which several faults are noticed is not specified.
HeaderFaults(D) ==
    IF Len(D) <= 5 THEN {"badheader"}
    ELSE LET v == Version(D)
             t == DocType(D)
             sz == ReadVarint(D, 6, Len(D))
         IN
         IF Magic(D) = MagicUtf8 THEN {"utf8"} ELSE
         (IF MagicFits(D) THEN {} ELSE {"badheader"})
         \cup (IF v > 4 THEN {"other"} ELSE {})
         \cup (IF ~sz.ok THEN {"other"}
               ELSE IF sz.n > Len(D) - sz.nx + 1 THEN {"other"} ELSE {})
         \cup (CASE t = RAW \/ t = SNAPPYINC -> {}
                 [] t = SNAPPY -> IF v = 1 THEN {} ELSE {"badsnappy"}
                 [] t = ZLIB   -> IF v >= 3 THEN {} ELSE {"badzlib"}
                 [] t = ZSTD   -> IF v >= 4 THEN {} ELSE {"badzstd"}
                 [] OTHER      -> {"other"})
HeaderOk(D) == HeaderFaults(D) = {}

\* for documents with HeaderOk
Suffix(D) == LET sz == ReadVarint(D, 6, Len(D)) IN
             [start |-> sz.nx, size |-> sz.n, body |-> sz.nx + sz.n]
\* user data is present when the suffix has a bit field with bit 0 set
HasUserData(D) == LET x == Suffix(D) IN
                  x.size >= 1 /\ D[x.start] % 2 = 1
UserData(D)    == LET x == Suffix(D) IN SubSeq(D, x.start + 1, x.body - 1)

RestOf(D) == LET x == Suffix(D) IN SubSeq(D, x.body, Len(D))
\* the shift between offsets and body positions (see SrlBody)
Shift(D) == IF Version(D) = 1 THEN Suffix(D).body - 2 ELSE 0

\* Compressed body: where the blob is. first: 1-based position in the rest
NoFrame == [ok |-> FALSE, first |-> 0, len |-> 0, ulen |-> 0]
Framing(D) ==
    LET R == RestOf(D)
        t == DocType(D)
        v == ReadVarint(R, 1, Len(R))
        w == ReadVarint(R, v.nx, Len(R))
    IN CASE t = SNAPPY -> [ok |-> TRUE, first |-> 1, len |-> Len(R), ulen |-> Big]
         [] t \in {SNAPPYINC, ZSTD} ->
              IF ~v.ok \/ v.n > Len(R) - v.nx + 1 THEN NoFrame
              ELSE [ok |-> TRUE, first |-> v.nx, len |-> v.n, ulen |-> Big]
         [] t = ZLIB ->
              IF ~v.ok THEN NoFrame
              ELSE IF ~w.ok \/ w.n > Len(R) - w.nx + 1 THEN NoFrame
              ELSE [ok |-> TRUE, first |-> w.nx, len |-> w.n, ulen |-> v.n]
         [] OTHER -> NoFrame

\* What the document's body bytes are, given infl: the result of inflating the
\* blob by an implementation independent of the library ([at, len, ok, b]).
\*   "raw" the bytes B;  "bad" the document is malformed;  "odd" not specified
BodyOf(D, infl) ==
    IF DocType(D) = RAW THEN [st |-> "raw", B |-> RestOf(D)]
    ELSE LET f == Framing(D) IN
         IF ~f.ok THEN [st |-> "bad", B |-> <<>>]
         ELSE IF ~infl.ok THEN [st |-> "bad", B |-> <<>>]
         ELSE IF DocType(D) = ZLIB /\ f.ulen # Len(infl.b) THEN [st |-> "odd", B |-> <<>>]
         ELSE [st |-> "raw", B |-> infl.b]
\* the driver inflated what the framing designates
InflAgrees(D, infl) ==
    \/ ~HeaderOk(D)
    \/ DocType(D) = RAW
    \/ LET f == Framing(D) IN
       IF f.ok THEN infl.at = f.first /\ infl.len = f.len ELSE infl.at = 0
=============================================================================
