------------------------------ MODULE T_Merge -------------------------------
(***************************************************************************)
(* The merger as a state machine, and trace specification for it.          *)
(* State: M, the documents accepted so far (each the nodes of its body and *)
(* its items, the ids of the nodes that become elements of the result),    *)
(* whether it is finished, and with what.                                  *)
(* A record is one history: a configuration opt and calls ops, each under  *)
(* the configuration cfg of that time,                                     *)
(*   append d -> ok, n                                                     *)
(*             (econ: the result's economy is judged, too)                 *)
(*   finish -> ok, out, and what other mergers made of the accepted        *)
(*             documents alone: clean (same configuration), plain (no      *)
(*             compression)                                                *)
(* Documents going in and the one coming out are read by SrlBody, and the  *)
(* result is walked against its sources.                                   *)
(***************************************************************************)
EXTENDS SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k,       \* record
          i,       \* call
          ph,      \* "call", "in" (reading d), "out" (reading the result), "walk", "judged"
          B, s,    \* bytes and machine
          M, w
vars == <<k, i, ph, B, s, M, w>>

NoWalk == [todo |-> <<>>, seen |-> {}, bad |-> ""]
Empty == [docs |-> <<>>, fin |-> FALSE, out |-> <<>>, odd |-> FALSE]
Init == /\ k \in 1..N /\ i = 1 /\ ph = "call" /\ B = <<>> /\ s = BodyInitLd
        /\ M = Empty /\ w = NoWalk

Rec == Recs[k]
Opt == Rec.opt
Op == Rec.ops[i]
Cfg == Op.cfg                      \* what of the configuration may change from call to call
Say(v) == PrintT("R " \o ToString(k) \o " " \o v)
Judged(v) == ph' = "judged" /\ UNCHANGED <<k, i, B, s, M, w>> /\ Say(v)

Class == IF M.odd THEN "ok odd" ELSE "ok"
\* on to the next call with merger state m
Proceed(m) ==
    IF i = Len(Rec.ops) THEN Judged(IF Rec.kept THEN Class ELSE "BAD a finished document was modified")
    ELSE ph' = "call" /\ i' = i + 1 /\ M' = m /\ UNCHANGED <<k, B, s, w>>
Fails(m, why) == IF Op.ok THEN Judged("BAD accepted (" \o why \o ")") ELSE Proceed(m)

WantVersion == IF Opt.ver = 0 THEN 3 ELSE Opt.ver
TopOk == Opt.top \in {0, 1}

\* ---- Append -----------------------------------------------------------------
Append_ ==
    /\ ph = "call" /\ Op.op = "append"
    /\ IF Op.err = "panic" THEN Judged("BAD panic")
       ELSE IF ~Op.same THEN Judged("BAD argument modified")
       ELSE IF ~TopOk THEN Fails(M, "top level")
       ELSE IF M.fin THEN Fails(M, "finished")
       ELSE IF ~HeaderOk(Op.d) THEN Fails(M, "header")
       ELSE IF ~InflAgrees(Op.d, Op.infl) THEN Judged("HARNESS inflation")
       ELSE LET b == BodyOf(Op.d, Op.infl) IN
            CASE b.st = "bad" -> Fails(M, "compression")
              [] b.st = "odd" -> IF Op.ok THEN Judged("loose compression") ELSE Proceed(M)
              [] b.st = "raw" ->
                   IF DocType(Op.d) = ZSTD /\ ~Rec.zstd THEN Fails(M, "no zstd here")
                   ELSE ph' = "in" /\ B' = b.B /\ s' = BodyInitLd /\ UNCHANGED <<k, i, M, w>>

Sh == IF ph = "in" THEN Shift(Op.d) ELSE 0
Parse == /\ ph \in {"in", "out"} /\ s.st = "run"
         /\ s' = Steps(B, s, Sh)
         /\ UNCHANGED <<k, i, ph, B, M, w>>

\* in flat mode a document contributes the elements of its top-level container
\* if that is of the kind the result has, starting right at the body's start
Tag(p) == IF p > Len(B) THEN 0 ELSE B[p] % 128
FlatFits == /\ Cfg.flat
            /\ IF Opt.top = 0 THEN Tag(1) = T_ARRAY
               ELSE \/ Tag(1) = T_REFN /\ Tag(2) = T_ARRAY
                    \/ Tag(1) >= 64 /\ Tag(1) < 80
TopNode == IF Opt.top = 0 THEN Root(s) ELSE s.nodes[Root(s)].c[1]
ItemsOf == IF FlatFits THEN s.nodes[TopNode].c ELSE <<Root(s)>>
\* the container given up in flat mode cannot be referred to any more
GivenUp == IF FlatFits THEN {Root(s), TopNode} ELSE {}
Referred == {s.nodes[n].c[1] : n \in {x \in 1..Len(s.nodes) : s.nodes[x].k \in {"refp", "alias"}}}

Binds == s.loose \subseteq {"d", "self", "weak", "frozen payload", "open frozen"}
\* merging does not look at what other implementations may support, nor at what
\* is inside the target of a COPY
PassedThrough == {"tag not supported here", "nested copy"}
AfterIn ==
    /\ ph = "in" /\ s.st # "run"
    /\ IF ~Binds THEN (IF Op.ok THEN Judged("loose") ELSE Proceed([M EXCEPT !.odd = TRUE]))
       ELSE IF s.st = "err" THEN
            IF s.why \in PassedThrough /\ Op.ok THEN Judged("loose " \o s.why) ELSE Fails(M, s.why)
       ELSE IF GivenUp \cap Referred # {} THEN Fails(M, "reference to a container given up")
       ELSE IF ~Op.ok THEN
            IF s.pos # Len(B) + 1 THEN Proceed(M) \* bytes follow the item
            ELSE Judged("BAD refused")
       ELSE IF Op.n # Len(ItemsOf) THEN Judged("BAD count")
       ELSE Proceed([M EXCEPT !.docs = Append(@, [nodes |-> s.nodes, items |-> ItemsOf, vcopy |-> s.vcopy, refs |-> DOMAIN s.trk # {} \/ s.pos # Len(B) + 1])])

\* ---- Finish -----------------------------------------------------------------
CompUsable == \/ Cfg.comp = "snappyinc"
              \/ Cfg.comp = "zlib" /\ WantVersion >= 3 /\ Cfg.level + 1 \in 0..10   \* those there are
TypeOf == IF Cfg.comp = "zlib" THEN ZLIB ELSE SNAPPYINC
Compresses(len) == Cfg.comp # "none" /\ (Cfg.thr = 0 \/ len >= Cfg.thr)

PlainWrong(D) ==
    IF Len(D) < 6 \/ ~HeaderOk(D) THEN "header"
    ELSE IF Version(D) # WantVersion \/ DocType(D) # RAW \/ Suffix(D).size # 0 THEN "header"
    ELSE ""
OutWrong(D, infl, plain) ==
    IF D # Op.clean THEN "another merger's result differs"
    ELSE IF ~Compresses(Len(plain)) THEN (IF D = plain THEN "" ELSE "uncompressed result")
    ELSE IF ~HeaderOk(D) \/ ~InflAgrees(D, infl) THEN "header"
    ELSE IF Version(D) # WantVersion \/ Suffix(D).size # 0 THEN "header"
    ELSE IF DocType(D) # TypeOf THEN "document type"
    ELSE LET b == BodyOf(D, infl)
             f == Framing(D)
         IN IF b.st # "raw" THEN "compression"
            ELSE IF b.B # RestOf(plain) THEN "compressed body"
            ELSE IF f.first + f.len - 1 # Len(RestOf(D)) THEN "bytes after the blob"
            ELSE ""

Finish ==
    /\ ph = "call" /\ Op.op = "finish"
    /\ IF Op.err = "panic" THEN Judged("BAD panic")
       ELSE IF ~TopOk THEN Fails(M, "top level")
       ELSE IF M.fin THEN
            IF Op.ok /\ Op.out = M.out THEN Proceed(M) ELSE Judged("BAD finishing again")
       ELSE LET x == PlainWrong(Op.plain) IN
            IF x # "" THEN Judged("BAD result: " \o x)
            ELSE IF Compresses(Len(Op.plain)) /\ ~CompUsable THEN Fails(M, "compressor")
            ELSE IF ~Op.ok THEN Judged("BAD finish failed")
            ELSE LET y == OutWrong(Op.out, Op.oinfl, Op.plain) IN
                 IF y # "" THEN Judged("BAD result: " \o y)
                 ELSE ph' = "out" /\ B' = RestOf(Op.plain) /\ s' = BodyInitLd /\ UNCHANGED <<k, i, M, w>>

ResultItems == IF Opt.top = 0 THEN s.nodes[Root(s)].c ELSE s.nodes[s.nodes[Root(s)].c[1]].c
TopFits == IF Opt.top = 0 THEN s.nodes[Root(s)].k = "arr"
           ELSE /\ s.nodes[Root(s)].k \in {"refn", "aref"}
                /\ s.nodes[s.nodes[Root(s)].c[1]].k = "arr"
RECURSIVE AllItems(_)
\* <<document, item>> of everything accepted
AllItems(j) == IF j > Len(M.docs) THEN <<>>
               ELSE [x \in 1..Len(M.docs[j].items) |-> <<j, M.docs[j].items[x]>>] \o AllItems(j + 1)

\* ---- economy ------------------------------------------------------------------
\* Keys of more than one byte and class names are spelled out once for each kind
\* of string. Strings that are values become copies only if DedupeStrings is set.
\* It then makes copies of all that repeat an earlier string or key, unless there
\* are references (whose targets stay), copies or bytes after the item.
RECURSIVE SumCopies(_)
SumCopies(j) == IF j = 0 THEN 0 ELSE M.docs[j].vcopy + SumCopies(j - 1)
UsesOf(role) == {b \in 1..Len(s.uses) : s.uses[b][4] = role /\ (role = "key" => Len(s.uses[b][1]) > 1)}
Spelled(U) == {b \in U : ~s.uses[b][2]}
Names(U) == {<<s.uses[b][1], s.uses[b][3]>> : b \in U}
Once(U) == Cardinality(U) = Cardinality(Names(U))
StrLeaves == {n \in 1..Len(s.nodes) : s.nodes[n].k = "leaf" /\ s.nodes[n].a[1] \in {K_STR, K_BIN} /\ Len(s.nodes[n].a) > 2}
NameOf(n) == <<Tail(s.nodes[n].a), IF s.nodes[n].a[1] = K_STR THEN 1 ELSE 0>>
Plain == \A j \in 1..Len(M.docs) : M.docs[j].vcopy = 0 /\ ~M.docs[j].refs
EconomyWrong ==
    LET keys == UsesOf("key")  classes == UsesOf("class") IN
    IF ~Once(Spelled(keys)) THEN "a repeated key that is no copy"
    ELSE IF ~Once(classes) THEN "a repeated class name"
    ELSE IF ~Opt.dedupe THEN (IF s.vcopy # SumCopies(Len(M.docs)) THEN "copies with deduplication of strings off" ELSE "")
    ELSE IF ~Plain THEN ""
    ELSE IF Cardinality(StrLeaves) - s.vcopy + Cardinality(Spelled(keys))
              # Cardinality({NameOf(n) : n \in StrLeaves} \cup Names(Spelled(keys)))
         THEN "a repeated string that is no copy"
    ELSE ""

AfterOut ==
    /\ ph = "out" /\ s.st # "run"
    /\ IF s.st = "err" THEN Judged("BAD result: " \o s.why)
       ELSE IF ~Binds THEN Judged("BAD result: " \o ToString(s.loose))
       ELSE IF \E p \in s.pos..Len(B) : B[p] # T_PAD THEN Judged("BAD bytes after the item")
       ELSE IF ~TopFits THEN Judged("BAD top level")
       ELSE IF Rec.econ /\ EconomyWrong # "" THEN Judged("BAD result: " \o EconomyWrong)
       ELSE LET all == AllItems(1) IN
            IF Len(all) # Len(ResultItems) THEN Judged("BAD number of elements")
            ELSE LET todo == [x \in 1..Len(all) |-> <<all[x][1], all[x][2], ResultItems[x]>>] IN
                 /\ ph' = "walk"
                 /\ w' = [todo |-> todo, seen |-> {todo[x] : x \in 1..Len(todo)}, bad |-> ""]
                 /\ UNCHANGED <<k, i, B, s, M>>

\* one pair of nodes a step, many in large documents
WalkStep(v) ==
    LET p == Head(v.todo)
        x == M.docs[p[1]].nodes[p[2]]
        y == s.nodes[p[3]]
        next == [c \in 1..Len(x.c) |-> <<p[1], x.c[c], y.c[c]>>]
        fresh == SelectSeq(next, LAMBDA q : q \notin v.seen)
    IN IF x.k # y.k \/ x.a # y.a \/ x.ks # y.ks \/ x.kk # y.kk \/ Len(x.c) # Len(y.c)
       THEN [v EXCEPT !.bad = "element differs: " \o x.k \o " " \o y.k]
       ELSE [v EXCEPT !.todo = Tail(@) \o fresh,
                      !.seen = @ \cup {fresh[c] : c \in 1..Len(fresh)}]
RECURSIVE WalkN(_, _)
WalkN(n, v) == IF n = 0 \/ v.todo = <<>> \/ v.bad # "" THEN v ELSE WalkN(n - 1, WalkStep(v))
WalkOn ==
    /\ ph = "walk" /\ w.todo # <<>> /\ w.bad = ""
    /\ w' = WalkN(IF Len(s.nodes) <= 700 THEN 1 ELSE 64, w)
    /\ UNCHANGED <<k, i, ph, B, s, M>>

\* every node stands for one node: sharing is as it was, and within a document
OneToOne == /\ Cardinality({<<p[1], p[2]>> : p \in w.seen}) = Cardinality(w.seen)
            /\ Cardinality({p[3] : p \in w.seen}) = Cardinality(w.seen)

AfterWalk ==
    /\ ph = "walk" /\ (w.todo = <<>> \/ w.bad # "")
    /\ IF w.bad # "" THEN Judged("BAD " \o w.bad)
       ELSE IF ~OneToOne THEN Judged("BAD sharing differs")
       ELSE Proceed([M EXCEPT !.fin = TRUE, !.out = Op.out])

Next == Append_ \/ Parse \/ AfterIn \/ Finish \/ AfterOut \/ WalkOn \/ AfterWalk
Spec == Init /\ [][Next]_vars
MachineSane == ph \in {"in", "out"} => Sane(B, s, Sh)
=============================================================================
