------------------------------- MODULE T_Nest -------------------------------
(***************************************************************************)
(* Values that are nothing but nested, tens of thousands of levels deep.   *)
(* Each record is one encoding of such a value:                            *)
(*   units  the kinds of Go values around each other, from the inside out, *)
(*          n of them in turn; the innermost holds the number 1            *)
(*   opt, head, class   configuration, whether it is the header, the name  *)
(*                      of the struct type                                 *)
(*   ok, err, d, dok    outcome, document, whether that was decoded        *)
(* Such a document is a chain: every item holds one other. It is read from *)
(* the outside in by a machine that needs no stack, whose state is the     *)
(* position and how many tags of the chain have been met; what the next    *)
(* tag must be follows from the units alone. It is the relation DocPair of *)
(* SrlValue restricted to chains (and MaxRecursionDepth as defined there). *)
(***************************************************************************)
EXTENDS SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k, ph, pos, met,
          g                  \* what follows from the record alone, see Plan
vars == <<k, ph, pos, met, g>>

Say(v) == PrintT("R " \o ToString(k) \o " " \o v)
Judged(v) == ph' = "judged" /\ UNCHANGED <<k, pos, met, g>> /\ Say(v)

\* ---- depth ------------------------------------------------------------------
\* levels of the recursion limit per unit
Weight(u) == CASE u = "pstruct" -> 2 [] u \in {"obj", "weak"} -> 0 [] OTHER -> 1
RECURSIVE WeightOf(_, _)
WeightOf(us, n) == IF n = 0 THEN 0 ELSE Weight(us[n]) + WeightOf(us, n - 1)
Period(r) == Len(r.units)
Levels(r) == WeightOf(r.units, Period(r)) * (r.n \div Period(r)) + WeightOf(r.units, r.n % Period(r))
TooDeep(r) == r.opt.maxd > 0 /\ Levels(r) >= r.opt.maxd

\* ---- the tags of a chain, from the outside in ---------------------------------
Array(u) == u \in {"slice", "array"}
\* what a unit becomes; out: the unit around it
Tags(u, out, perl) ==
    LET ref == IF perl /\ out # "ptr" THEN <<"ref">> ELSE <<>> IN
    CASE Array(u) -> ref \o <<"arr">>
      [] u = "map" -> ref \o <<"map">>
      [] u = "ptr" -> <<"ref">>
      [] u = "struct" -> <<"struct">> \o (IF perl THEN <<"ref">> ELSE <<>>) \o <<"field">>
      [] u = "pstruct" -> <<"ref", "struct">> \o (IF perl THEN <<"ref">> ELSE <<>>) \o <<"field">>
      [] u \in {"obj", "pobj"} -> <<"obj">>
      [] u \in {"weak", "pweak"} -> <<"weak">>
\* unit number m, counted from the outside; the one around it
Unit(r, m) == r.units[((r.n - m) % Period(r)) + 1]
Outside(r, m) == IF m = 1 THEN "" ELSE Unit(r, m - 1)
\* the tags of the outermost unit differ in that there is nothing around it;
\* after it they repeat
RECURSIVE TagsOf(_, _, _)
TagsOf(r, m, last) == IF m > last THEN <<>>
                      ELSE Tags(Unit(r, m), Outside(r, m), r.opt.perl) \o TagsOf(r, m + 1, last)
First(r) == TagsOf(r, 1, 1)
Cycle(r) == TagsOf(r, 2, Period(r) + 1)
Whole(r) == (r.n - 1) \div Period(r)
Rest(r) == TagsOf(r, 2, 1 + ((r.n - 1) % Period(r)))
Total(r) == Len(First(r)) + Whole(r) * Len(Cycle(r)) + Len(Rest(r))
Tag(f, c, j) == IF j <= Len(f) THEN f[j] ELSE c[((j - Len(f) - 1) % Len(c)) + 1]

\* ---- strings ------------------------------------------------------------------
KeyOf(r, t) == CASE t = "map" -> <<107, 101, 121>>                     \* key
                 [] t = "field" -> <<73>>                             \* I
                 [] t = "struct" -> r.class
                 [] OTHER -> <<99, 108, 97, 115, 115>>                \* class
Is(D, p, str) == Len(D) >= p + Len(str) - 1 /\ SubSeq(D, p, p + Len(str) - 1) = str
\* the string at p: position after it, 0 if it is not that one
Plain(D, p, str) ==
    LET t == IF p > Len(D) THEN 0 ELSE D[p] % 128 IN
    IF t >= 96 /\ t = 96 + Len(str) /\ Is(D, p + 1, str) THEN p + 1 + Len(str)
    ELSE IF t \in {38, 39}
    THEN LET v == ReadVarint(D, p + 1, Len(D)) IN
         IF v.ok /\ v.n = Len(str) /\ Is(D, v.nx, str) THEN v.nx + Len(str) ELSE 0
    ELSE 0
\* where offset 0 would be
Base(r) == LET x == Suffix(r.d) IN IF r.head THEN x.start ELSE IF Version(r.d) = 1 THEN 1 ELSE x.body - 1
Start(r) == LET x == Suffix(r.d) IN IF r.head THEN x.start + 1 ELSE x.body
\* a string or a copy of one that comes before
String(r, p, str) ==
    LET D == r.d IN
    IF p <= Len(D) /\ D[p] % 128 = 47 /\ ~r.opt.nodedup
    THEN LET v == ReadVarint(D, p + 1, Len(D)) IN
         IF v.ok /\ v.n + g.base \in g.start..(p-1) /\ Plain(D, v.n + g.base, str) > 0 THEN v.nx ELSE 0
    ELSE Plain(D, p, str)
Class(r, p, tag, str) ==                               \* OBJECT and OBJECTV
    IF tag = 44 THEN String(r, p + 1, str)
    ELSE IF tag = 45 /\ ~r.opt.nodedup
    THEN LET v == ReadVarint(r.d, p + 1, Len(r.d)) IN
         IF v.ok /\ v.n + g.base \in g.start..(p-1) /\ Plain(r.d, v.n + g.base, str) > 0 THEN v.nx ELSE 0
    ELSE 0

NoPlan == [f |-> <<>>, c |-> <<>>, total |-> 0, base |-> 0, start |-> 0]
Plan(r) == [f |-> First(r), c |-> Cycle(r), total |-> Total(r), base |-> Base(r), start |-> Start(r)]

\* ---- the machine ----------------------------------------------------------------
Stuck == [pos |-> 0, met |-> 0]
To(p, m) == IF p = 0 THEN Stuck ELSE [pos |-> p, met |-> m]
OneOf(D, p) == p < Len(D) /\ D[p + 1] = 1                 \* exactly one item
TowerStep(r, p, m) ==
    LET D == r.d
        b == D[p] % 128
        t == Tag(g.f, g.c, m + 1)
        two == Tag(g.f, g.c, m + 2)
    IN
    CASE b = 63 -> To(p + 1, m)                                                      \* PAD
      [] b = 40 /\ t = "ref" -> To(p + 1, m + 1)                                     \* REFN
      [] b = 43 /\ t = "arr" /\ OneOf(D, p) -> To(p + 2, m + 1)                      \* ARRAY
      [] b = 65 /\ t = "ref" /\ two = "arr" -> To(p + 1, m + 2)                      \* ARRAYREF_1
      [] b = 42 /\ t \in {"map", "field"} /\ OneOf(D, p) -> To(String(r, p + 2, KeyOf(r, t)), m + 1)
      [] b = 81 /\ t = "ref" /\ two \in {"map", "field"} -> To(String(r, p + 1, KeyOf(r, two)), m + 2)
      [] b \in {44, 45} /\ t \in {"struct", "obj"} -> To(Class(r, p, b, KeyOf(r, t)), m + 1)
      [] b = 48 /\ t = "weak" -> To(p + 1, m + 1)                                    \* WEAKEN
      [] OTHER -> Stuck
RECURSIVE StepN(_, _, _, _, _)
StepN(n, r, p, m, lim) ==
    IF n = 0 \/ p = 0 \/ m = g.total \/ p > lim THEN [pos |-> p, met |-> m]
    ELSE LET x == TowerStep(r, p, m) IN StepN(n - 1, r, x.pos, x.met, lim)

Outcome ==
    /\ ph = "call"
    /\ LET r == Recs[k] IN
       IF r.err = "panic" THEN Judged("BAD panic")
       ELSE IF TooDeep(r) THEN Judged(IF r.ok THEN "BAD too deep" ELSE IF r.err = "recursion" THEN "inv too deep" ELSE "BAD error kind")
       ELSE IF ~r.ok THEN Judged("BAD refused")
       ELSE IF ~HeaderOk(r.d) \/ DocType(r.d) # RAW \/ (r.head /\ ~HasUserData(r.d)) THEN Judged("BAD envelope")
       ELSE ph' = "read" /\ pos' = Start(r) /\ met' = 0 /\ g' = Plan(r) /\ UNCHANGED k
Read ==
    /\ ph = "read"
    /\ LET r == Recs[k]
           last == IF r.head THEN Suffix(r.d).body - 1 ELSE Len(r.d)
       IN IF pos = 0 THEN Judged("BAD document: not that chain")
          ELSE IF met = g.total
          THEN Judged(IF pos # last \/ r.d[last] % 128 # 1 THEN "BAD document: its end"
                      ELSE IF r.n <= 1100 /\ ~r.dok /\ \A j \in 1..Period(r) : r.units[j] \notin {"weak", "pweak"}
                      THEN "BAD not decoded"
                      ELSE "ok")
          ELSE IF pos >= last THEN Judged("BAD document: too short")
          ELSE LET x == StepN(150, r, pos, met, last) IN
               pos' = x.pos /\ met' = x.met /\ UNCHANGED <<k, ph, g>>

Init == k \in 1..N /\ ph = "call" /\ pos = 0 /\ met = 0 /\ g = NoPlan
Next == Outcome \/ Read
Spec == Init /\ [][Next]_vars

Within == ph = "read" => met <= g.total + 1 /\ pos <= Len(Recs[k].d) + 1
=============================================================================
