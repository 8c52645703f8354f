------------------------------ MODULE SrlBytes ------------------------------
(***************************************************************************)
(* Bytes, varints and 64-bit integers.                                     *)
(*                                                                         *)
(* TLC integers are 32-bit, so a 64-bit quantity is the sequence of its    *)
(* base-128 digits, least significant first, without trailing zero digits. *)
(* Floats and strings are the sequences of their bytes.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Byte == 0..255
Big  == 268435456                          \* 2^28: "larger than any document here"

RECURSIVE TrimZeros(_)
TrimZeros(d) == IF d # <<>> /\ d[Len(d)] = 0
                THEN TrimZeros(SubSeq(d, 1, Len(d) - 1)) ELSE d

\* value of a digit sequence, saturating at Big
SmallVal(d) ==
    IF Len(d) > 4 THEN Big
    ELSE (IF Len(d) >= 1 THEN d[1] ELSE 0)
       + (IF Len(d) >= 2 THEN 128 * d[2] ELSE 0)
       + (IF Len(d) >= 3 THEN 16384 * d[3] ELSE 0)
       + (IF Len(d) >= 4 THEN 2097152 * d[4] ELSE 0)

\* digits of a small natural number
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % 128>> \o DigitsOf(n \div 128)

\* one right shift of a digit sequence
Half(d) == TrimZeros([i \in 1..Len(d) |->
              (d[i] \div 2) + (IF i < Len(d) THEN (d[i+1] % 2) * 64 ELSE 0)])
IsOdd(d) == Len(d) > 0 /\ d[1] % 2 = 1

\* Varint at position p of B, not reading past position lim.
\*   ok    a terminated varint that fits in 64 bits was found
\*   nx    position after it;  d  its digits;  n  its saturated value
\* It need not be the shortest encoding of its value.
NoVarint == [ok |-> FALSE, nx |-> 0, d |-> <<>>, n |-> 0]
RECURSIVE VarintEnd(_, _, _, _)
VarintEnd(B, p, lim, k) ==
    IF p > lim \/ k > 10 THEN 0
    ELSE IF B[p] < 128 THEN p
    ELSE VarintEnd(B, p + 1, lim, k + 1)
ReadVarint(B, p, lim) ==
    LET e == VarintEnd(B, p, lim, 1) IN
    IF e = 0 \/ (e - p + 1 = 10 /\ B[e] > 1) THEN NoVarint
    ELSE LET d == TrimZeros([i \in 1..(e - p + 1) |-> B[p + i - 1] % 128])
         IN [ok |-> TRUE, nx |-> e + 1, d |-> d, n |-> SmallVal(d)]

\* canonical (shortest) varint of a digit sequence
Varint(d) == IF d = <<>> THEN <<0>>
             ELSE [i \in 1..Len(d) |-> IF i < Len(d) THEN 128 + d[i] ELSE d[i]]

\* byte order on byte sequences, for canonical hash order
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLess(a, b, i + 1)
BytesLess(a, b) == LexLess(a, b, 1)

\* the indices in set I ordered by the byte sequences ks[i]
SetToSortSeqBy(I, ks) == SetToSortSeq(I, LAMBDA i, j : BytesLess(ks[i], ks[j]))
=============================================================================
