------------------------------- MODULE T_Enc -------------------------------
(***************************************************************************)
(* Trace specification for encoding: each record is one call of the real   *)
(* encoder on one value, what came back (document or error), and what      *)
(* decoding that document gave.                                            *)
(*   opt  the encoder's configuration    v, hv  value and header (SrlValue)*)
(*   ok, err, d, infl                    dec, dok, val, hval               *)
(*   mem  what is wrong with the memory: "" if the document stays as it is *)
(*        when the encoder encodes something else, and the value when the  *)
(*        document is written into                                         *)
(* The phases of one record:                                               *)
(*   "env" the envelope -> "hparse" the header data is read by the machine *)
(*   of SrlBody -> "hwalk" compared with hv -> "parse" "walk" the same for *)
(*   the body and v -> "same" the decoded values against v -> "judged"     *)
(***************************************************************************)
EXTENDS SrlValue, SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, ph, B, s, w, i
vars == <<k, ph, B, s, w, i>>

NoWalk == [todo |-> <<>>, seen |-> {}, rel |-> {}, bad |-> ""]
Init == k \in 1..N /\ ph = "env" /\ B = <<>> /\ s = BodyInit /\ w = NoWalk /\ i = 0

Say(v) == PrintT("R " \o ToString(k) \o " " \o v)
Judged(v) == ph' = "judged" /\ UNCHANGED <<k, B, s, w, i>> /\ Say(v)

WantVersion(o) == IF o.ver = 0 THEN 3 ELSE o.ver
HasHead(r) == r.hv # <<>> /\ WantVersion(r.opt) >= 2

\* ---- which calls must fail, which must not --------------------------------
\* compressor and version combinations that the protocol does not define
CompOk(o) == CASE o.comp = "none" -> TRUE
               [] o.comp = "snappy" -> WantVersion(o) = 1
               [] o.comp = "snappyinc" -> TRUE
               [] o.comp = "zlib" -> WantVersion(o) >= 3 /\ o.level + 1 \in 0..10
               [] OTHER -> FALSE
Kinds(V) == {V[n].k : n \in 1..Len(V)}
MustFail(r) ==
    \/ "bad" \in Kinds(r.v)
    \/ WantVersion(r.opt) >= 2 /\ "bad" \in Kinds(r.hv)
\* a pointer met more than once is written out where it is met first, and maps
\* are met in any order: then the depth is known only up to an interval
Shared(V) ==
    \E a, b \in 1..Len(V) : \E x \in 1..Len(V[a].c), y \in 1..Len(V[b].c) :
        <<a, x>> # <<b, y>> /\ V[a].c[x] = V[b].c[y]
TooDeep(r, V) == r.opt.maxd > 0 /\ (\/ \E n \in 1..Len(V) : Endless(V, n, {})
                                    \/ Reaches(V, 1, {}, r.opt.maxd))
SurelyTooDeep(r, V) == /\ TooDeep(r, V)
                       /\ \/ \E n \in 1..Len(V) : Endless(V, n, {})
                          \/ ~Shared(V)
DeepHead(r) == IF HasHead(r) THEN TooDeep(r, r.hv) ELSE FALSE
SurelyDeep(r) == SurelyTooDeep(r, r.v) \/ (IF HasHead(r) THEN SurelyTooDeep(r, r.hv) ELSE FALSE)

\* ---- the envelope ----------------------------------------------------------
Threshold(r, ulen) == r.opt.thr = 0 \/ ulen >= r.opt.thr
TypeOf(o) == CASE o.comp = "snappy" -> SNAPPY [] o.comp = "snappyinc" -> SNAPPYINC
               [] o.comp = "zlib" -> ZLIB [] OTHER -> RAW
Head5(r) == (IF WantVersion(r.opt) < 3 THEN MagicOld ELSE MagicNew)

EnvWrong(r) ==
    LET D == r.d IN
    IF ~HeaderOk(D) THEN "header"
    ELSE IF Magic(D) # Head5(r) \/ Version(D) # WantVersion(r.opt) THEN "version"
    ELSE IF ~InflAgrees(D, r.infl) THEN "harness inflation"
    ELSE IF HasHead(r) # HasUserData(D) THEN "user data"
    ELSE LET b == BodyOf(D, r.infl) IN
         IF b.st # "raw" THEN "compression"
         ELSE IF DocType(D) = RAW
              THEN (IF r.opt.comp # "none" /\ Threshold(r, Len(b.B)) THEN "not compressed" ELSE "")
         ELSE IF r.opt.comp = "none" \/ ~Threshold(r, Len(b.B)) THEN "compressed"
         ELSE IF DocType(D) # TypeOf(r.opt) THEN "document type"
         ELSE LET f == Framing(D) IN
              IF f.first + f.len - 1 # Len(RestOf(D)) THEN "bytes after the blob" ELSE ""

Envelope ==
    /\ ph = "env"
    /\ LET r == Recs[k] IN
       IF r.err = "panic" THEN Judged("BAD panic")
       ELSE IF ~r.same THEN Judged("BAD the value was modified")
       ELSE IF r.mem # "" THEN Judged("BAD memory: " \o r.mem)
       ELSE IF "cut" \in Kinds(r.v) THEN Judged("loose cut")
       ELSE IF ~r.ok THEN
          IF MustFail(r) THEN Judged("inv refused")
          ELSE IF TooDeep(r, r.v) \/ DeepHead(r) THEN
               Judged(IF r.err = "recursion" \/ (~SurelyDeep(r) /\ ~CompOk(r.opt)) THEN "inv too deep" ELSE "BAD error kind")
          ELSE IF ~CompOk(r.opt) THEN Judged("inv compressor")
          ELSE Judged("BAD refused")
       ELSE IF MustFail(r) THEN Judged("BAD encoded what cannot be")
       ELSE IF SurelyDeep(r) THEN Judged("BAD too deep")
       ELSE LET x == EnvWrong(r) IN
            IF x # "" THEN Judged("BAD envelope: " \o x)
            ELSE IF HasHead(r)
                 THEN ph' = "hparse" /\ B' = UserData(r.d) /\ UNCHANGED <<k, s, w, i>>
                 ELSE ph' = "parse" /\ B' = BodyOf(r.d, r.infl).B /\ UNCHANGED <<k, s, w, i>>

Sh(r) == IF ph = "hparse" THEN 0 ELSE Shift(r.d)
Parse == /\ ph \in {"hparse", "parse"} /\ s.st = "run"
         /\ s' = Steps(B, s, Sh(Recs[k]))
         /\ UNCHANGED <<k, ph, B, w, i>>

\* ---- what was read must be one complete item, economical as configured ----
DedupWrong(o) ==
    IF o.nodedup THEN (IF s.ncopy # 0 THEN "copies with deduplication off" ELSE "")
    ELSE IF IF Len(s.uses) <= 100
            THEN \E b \in 1..Len(s.uses) :
                   s.uses[b][2] # (\E a \in 1..(b-1) : s.uses[a][1] = s.uses[b][1])
            ELSE \* the same for many: as many first uses as strings, one of each
                 LET first == {b \in 1..Len(s.uses) : ~s.uses[b][2]}
                     strs == {s.uses[b][1] : b \in first}
                 IN strs # {s.uses[b][1] : b \in 1..Len(s.uses)} \/ Cardinality(first) # Cardinality(strs)
         THEN "a repeated string that is no copy"
    ELSE IF s.ncopy # Cardinality({b \in 1..Len(s.uses) : s.uses[b][2]}) THEN "a copied value"
    ELSE ""
BodyWrong(o) ==
    IF s.st # "done" THEN s.why
    ELSE IF s.loose \ {"d", "weak", "self"} # {} THEN "dubious: " \o ToString(s.loose)
    ELSE IF s.pos # Len(B) + 1 THEN "bytes after the item"
    ELSE DedupWrong(o)

\* decoding into an interface gave what the document says
Generic(val) == Tokens(s.nodes, Root(s), [perl |-> FALSE, nori |-> FALSE]) = val

Walk ==
    /\ ph \in {"hparse", "parse"} /\ s.st # "run"
    /\ LET r == Recs[k]
           x == BodyWrong(r.opt)
       IN IF x # "" THEN Judged("BAD document: " \o x)
          ELSE /\ ph' = IF ph = "hparse" THEN "hwalk" ELSE "walk"
               /\ w' = WalkInit(1, Root(s))
               /\ UNCHANGED <<k, B, s, i>>

Value(r) == IF ph = "hwalk" THEN r.hv ELSE r.v
WalkOn ==
    /\ ph \in {"hwalk", "walk"} /\ ~WalkDone(w)
    /\ w' = WalkSteps(Value(Recs[k]), s.nodes, "doc", Recs[k].opt.perl, w)
    /\ UNCHANGED <<k, ph, B, s, i>>

WalkWrong(r) ==
    IF w.bad # "" THEN "BAD meaning: " \o w.bad
    ELSE IF ~SharedOnce(w) THEN "BAD one pointer became two items"
    ELSE IF ~SharedRightly(Value(r), s.nodes, w) THEN "BAD two things became one item"
    ELSE IF s.loose = {} /\ ph = "hwalk" /\ ~Generic(r.hval) THEN "BAD decoded header"
    ELSE IF s.loose = {} /\ ph = "walk" /\ ~r.dok THEN "BAD not decoded"
    ELSE IF s.loose = {} /\ ph = "walk" /\ ~Generic(r.val) THEN "BAD decoded value"
    ELSE ""

AfterWalk ==
    /\ ph \in {"hwalk", "walk"} /\ WalkDone(w)
    /\ LET r == Recs[k]
           x == WalkWrong(r)
       IN IF x # "" THEN Judged(x)
          ELSE IF ph = "hwalk"
          THEN /\ ph' = "parse" /\ B' = BodyOf(r.d, r.infl).B /\ s' = BodyInit
               /\ w' = NoWalk /\ UNCHANGED <<k, i>>
          ELSE IF i = Len(r.dec) THEN Judged("ok")
          ELSE /\ ph' = "same" /\ i' = i + 1
               /\ w' = IF r.dec[i+1].ok THEN WalkInit(1, 1) ELSE NoWalk
               /\ UNCHANGED <<k, B, s>>

\* ---- the round trip ---------------------------------------------------------
Same ==
    /\ ph = "same"
    /\ LET r == Recs[k]
           x == r.dec[i]
           V == IF x.part = "head" THEN r.hv ELSE r.v
       IN IF ~x.ok THEN Judged(IF s.loose = {} THEN "BAD round trip fails: " \o x.part \o " " \o x.err
                               ELSE "loose trip")
          ELSE IF ~WalkDone(w)
          THEN w' = WalkSteps(V, x.v, "same", FALSE, w) /\ UNCHANGED <<k, ph, B, s, i>>
          ELSE IF w.bad # "" THEN Judged("BAD round trip: " \o x.part \o " " \o w.bad)
          ELSE IF i = Len(r.dec) THEN Judged("ok trip")
          ELSE /\ i' = i + 1
               /\ w' = IF r.dec[i+1].ok THEN WalkInit(1, 1) ELSE NoWalk
               /\ UNCHANGED <<k, ph, B, s>>

Next == Envelope \/ Parse \/ Walk \/ WalkOn \/ AfterWalk \/ Same
Spec == Init /\ [][Next]_vars

MachineSane == ph \in {"hparse", "parse"} => Sane(B, s, Sh(Recs[k]))
=============================================================================
