------------------------------ MODULE T_Typed -------------------------------
(***************************************************************************)
(* Trace specification for decoding into typed destinations: each record   *)
(* is one call,                                                            *)
(*   d, infl, zstd  the document     types, t  the destination's type      *)
(*   init  its content before        reg  registered class -> method       *)
(*   ok, err       the outcome       val  the content after                *)
(*   perl, nori    the decoder's mode                                      *)
(*   calls  what the unmarshal methods were handed                         *)
(*   mem           as in T_Doc                                             *)
(*   rest, rest2   what lay behind the ends of the destination's slices,   *)
(*                 no part of them, and what lies there after the call     *)
(***************************************************************************)
EXTENDS SrlTyped, SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, ph, B, s
vars == <<k, ph, B, s>>

Init == k \in 1..N /\ ph = "env" /\ B = <<>> /\ s = BodyInit
Say(v) == PrintT("R " \o ToString(k) \o " " \o v)
Judged(v) == ph' = "judged" /\ UNCHANGED <<k, B, s>> /\ Say(v)
Bad(r, w) == Judged(IF r.ok THEN "BAD accepted (" \o w \o ")" ELSE "inv " \o w)

Envelope ==
    /\ ph = "env"
    /\ LET r == Recs[k] IN
       IF r.err = "panic" THEN Judged("BAD panic")
       ELSE IF r.rest # r.rest2 THEN Judged("BAD wrote behind the end of a slice")
       ELSE IF r.mem # "" THEN Judged("BAD memory: " \o r.mem)
       ELSE IF ~HeaderOk(r.d) THEN Bad(r, "header")
       ELSE IF ~InflAgrees(r.d, r.infl) THEN Judged("HARNESS inflation")
       ELSE LET b == BodyOf(r.d, r.infl) IN
            CASE b.st = "bad" -> Bad(r, "compression")
              [] b.st = "odd" -> Judged("loose compression")
              [] b.st = "raw" ->
                   IF DocType(r.d) = ZSTD /\ ~r.zstd THEN Bad(r, "no zstd here")
                   ELSE ph' = "body" /\ B' = b.B /\ s' = BodyInit /\ UNCHANGED k

Parse == /\ ph = "body" /\ s.st = "run"
         /\ s' = Steps(B, s, Shift(Recs[k].d))
         /\ UNCHANGED <<k, ph, B>>

Context(r) == [T |-> r.types, nodes |-> s.nodes, ncopy |-> s.ncopy, perl |-> r.perl, nori |-> r.nori,
               reg |-> [c \in {r.reg[j].c : j \in 1..Len(r.reg)} |->
                          r.reg[MaxOfSet({j \in 1..Len(r.reg) : r.reg[j].c = c})].u]]

\* values the driver did not write out in full
RECURSIVE HasCut(_)
HasCut(v) == \/ v.k = "cut"
             \/ v.k = "any" /\ \E j \in 1..Len(v.a) : v.a[j][1] = 99
             \/ \E j \in 1..Len(v.c) : HasCut(v.c[j])

Judge ==
    /\ ph = "body" /\ s.st # "run"
    /\ LET r == Recs[k] IN
       IF s.st = "err" THEN (IF s.loose \subseteq {"d"} THEN Bad(r, s.why) ELSE Judged("loose"))
       ELSE IF ~Binding(s, [perl |-> r.perl]) THEN Judged("loose")
       ELSE LET A == Decoded(Context(r), r.t, r.init, Root(s)) IN
            IF A.st = "loose" THEN Judged("loose " \o A.why)
            ELSE IF A.st = "err" THEN
                 IF r.ok THEN Judged("BAD accepted (" \o A.why \o ")")
                 ELSE IF r.calls # A.calls THEN Judged("BAD calls")
                 ELSE Judged("inv does not fit: " \o A.why)
            ELSE IF ~r.ok THEN Judged("BAD rejected")
            ELSE IF r.calls # A.calls THEN Judged("BAD calls")
            ELSE IF HasCut(r.val) THEN Judged("loose too large to compare")
            ELSE IF ~SameShape(A.v, r.val) THEN Judged("BAD value: expected " \o ToString(A.v))
            ELSE IF ~SameSharing(A.v, r.val) THEN Judged("BAD sharing: expected " \o ToString(A.v))
            ELSE IF ~InPlace(A.v, r.val) THEN Judged("BAD replaced: expected " \o ToString(A.v))
            ELSE IF ~Fresh(r.init, A.v, r.val) THEN Judged("BAD reused memory: expected " \o ToString(A.v))
            ELSE Judged("ok")

Next == Envelope \/ Parse \/ Judge
Spec == Init /\ [][Next]_vars
MachineSane == ph = "body" => Sane(B, s, Shift(Recs[k].d))
=============================================================================
