------------------------------- MODULE T_Perl -------------------------------
(***************************************************************************)
(* Trace specification for Perl-compatible decoding followed by            *)
(* Perl-compatible encoding: a record holds a document d, and the document *)
(* out that came of decoding and encoding it (dok, eok: which succeeded).  *)
(* Both are read by the machine of SrlBody; the two graphs of nodes are    *)
(* then walked in step and must denote one Perl structure.                 *)
(***************************************************************************)
EXTENDS SrlEnvelope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
VARIABLES k,
          ph,      \* "env", "one", "two" (reading d, out), "walk", "judged"
          B, s,    \* bytes and machine
          A,       \* nodes and root of d
          w        \* the walk
vars == <<k, ph, B, s, A, w>>

NoWalk == [todo |-> <<>>, seen |-> {}, rel |-> {}, bad |-> ""]
Init == /\ k \in 1..N /\ ph = "env" /\ B = <<>> /\ s = BodyInit
        /\ A = [nodes |-> <<>>, root |-> 0] /\ w = NoWalk

Judged(v) == /\ ph' = "judged" /\ UNCHANGED <<k, B, s, A, w>>
             /\ PrintT("R " \o ToString(k) \o " " \o v)

Envelope ==
    /\ ph = "env"
    /\ LET r == Recs[k] IN
       IF r.err = "panic" THEN Judged("BAD panic")
       ELSE IF ~HeaderOk(r.d) THEN Judged("inv header")
       ELSE LET b == BodyOf(r.d, r.infl) IN
            IF b.st # "raw" THEN Judged("loose compression")
            ELSE ph' = "one" /\ B' = b.B /\ UNCHANGED <<k, s, A, w>>

Doc(r) == IF ph = "one" THEN r.d ELSE r.out
Parse == /\ ph \in {"one", "two"} /\ s.st = "run"
         /\ s' = Steps(B, s, Shift(Doc(Recs[k])))
         /\ UNCHANGED <<k, ph, B, A, w>>

\* does an item contain itself other than through a reference?
IsRef(x) == x.k \in {"refn", "aref", "refp"}
RECURSIVE SelfIn(_, _, _)
SelfIn(nodes, n, path) ==
    IF n \in path THEN TRUE
    ELSE IF IsRef(nodes[n]) THEN FALSE
    ELSE \E i \in 1..Len(nodes[n].c) : SelfIn(nodes, nodes[n].c[i], path \cup {n})
Endless(nodes) == \E n \in 1..Len(nodes) : SelfIn(nodes, n, {})

\* frozen objects do not come back: what they hold is Go's
HasFrozen(nodes) == \E n \in 1..Len(nodes) : nodes[n].k = "frz"

AfterOne ==
    /\ ph = "one" /\ s.st # "run"
    /\ LET r == Recs[k] IN
       IF s.loose \ {"d"} # {} THEN Judged("loose")
       ELSE IF s.st = "err" THEN Judged("inv " \o s.why)
       ELSE IF ~r.dok THEN Judged("BAD not decoded")
       ELSE IF HasFrozen(s.nodes) THEN Judged("loose frozen")
       ELSE IF ~r.eok THEN Judged(IF Endless(s.nodes) THEN "inv endless" ELSE "BAD not encoded")
       ELSE IF ~HeaderOk(r.out) \/ DocType(r.out) # RAW THEN Judged("BAD header")
       ELSE /\ ph' = "two" /\ A' = [nodes |-> s.nodes, root |-> Root(s)]
            /\ B' = RestOf(r.out) /\ s' = BodyInit /\ UNCHANGED <<k, w>>

AfterTwo ==
    /\ ph = "two" /\ s.st # "run"
    /\ IF s.st = "err" THEN Judged("BAD result: " \o s.why)
       ELSE IF s.loose \ {"d", "weak", "self"} # {} THEN Judged("BAD result: " \o ToString(s.loose))
       ELSE IF s.pos # Len(B) + 1 THEN Judged("BAD bytes after the item")
       ELSE /\ ph' = "walk"
            /\ w' = [NoWalk EXCEPT !.todo = << <<A.root, Root(s), FALSE>> >>,
                                   !.seen = {<<A.root, Root(s), FALSE>>}]
            /\ UNCHANGED <<k, B, s, A>>

\* ---- the same Perl structure ------------------------------------------------
RECURSIVE Real(_, _)
Real(nodes, n) == IF nodes[n].k = "alias" THEN Real(nodes, nodes[n].c[1]) ELSE n

No(why)   == [ok |-> FALSE, why |-> why, next |-> <<>>]
Yes(next) == [ok |-> TRUE, why |-> "", next |-> next]

Norm(tok) == IF tok[1] = K_UINT /\ Len(tok) < 12 THEN <<K_INT>> \o SubSeq(tok, 2, Len(tok)) ELSE tok

\* ref: the item is what a reference refers to
Pair(a0, b0, ref) ==
    LET a == Real(A.nodes, a0)
        b == Real(s.nodes, b0)
        x == A.nodes[a]
        y == s.nodes[b]
        \* containers that were not behind a reference are put behind one
        c == IF ref THEN b ELSE IF IsRef(y) THEN Real(s.nodes, y.c[1]) ELSE 0
        z == s.nodes[c]
        last == {i \in 1..Len(x.ks) : \A j \in (i+1)..Len(x.ks) : x.ks[j] # x.ks[i]}
    IN
    CASE x.k = "leaf" -> IF y.k = "leaf" /\ Norm(x.a) = Norm(y.a) THEN Yes(<<>>) ELSE No("scalar")
      [] IsRef(x) -> IF ~IsRef(y) THEN No("reference lost")
                     ELSE Yes(<< <<x.c[1], y.c[1], TRUE>> >>)
      [] x.k \in {"arr", "hash"} ->
           IF c = 0 THEN No("container not behind a reference")
           ELSE IF z.k # x.k THEN No("container")
           ELSE IF x.k = "arr" THEN
                IF Len(x.c) # Len(z.c) THEN No("length")
                ELSE Yes([i \in 1..Len(x.c) |-> <<x.c[i], z.c[i], FALSE>>])
           ELSE IF {x.ks[i] : i \in 1..Len(x.ks)} # {z.ks[i] : i \in 1..Len(z.ks)}
                   \/ Len(z.ks) # Cardinality(last) THEN No("keys")
           ELSE Yes(LET o == SetToSeq(last) IN
                    [i \in 1..Len(o) |->
                       <<x.c[o[i]], z.c[CHOOSE j \in 1..Len(z.ks) : z.ks[j] = x.ks[o[i]]], FALSE>>])
      [] x.k = "obj" -> IF y.k # "obj" THEN No("object lost")
                        ELSE IF y.a # x.a THEN No("class")
                        ELSE Yes(<< <<x.c[1], y.c[1], FALSE>> >>)
      [] x.k = "weak" -> IF y.k # "weak" THEN No("weak reference lost")
                         ELSE Yes(<< <<x.c[1], y.c[1], FALSE>> >>)
      [] x.k = "re" -> IF y.k = "re" /\ y.ks = x.ks THEN Yes(<<>>) ELSE No("regexp")
      [] OTHER -> No("unknown")

WalkStep(v) ==
    LET p == Head(v.todo)
        res == Pair(p[1], p[2], p[3])
        fresh == SelectSeq(res.next, LAMBDA q : q \notin v.seen)
        a == Real(A.nodes, p[1])
        b == Real(s.nodes, p[2])
    IN IF ~res.ok THEN [v EXCEPT !.bad = res.why]
       ELSE [v EXCEPT !.todo = Tail(@) \o fresh,
                      !.seen = @ \cup {fresh[i] : i \in 1..Len(fresh)},
                      !.rel = IF A.nodes[a].k = "refp"
                              THEN @ \cup {<<Real(A.nodes, A.nodes[a].c[1]), Real(s.nodes, s.nodes[b].c[1])>>}
                              ELSE IF A.nodes[a].k = "refn" /\ A.nodes[p[1]].k # "alias" THEN @ \cup {<<a, b>>}
                              ELSE @]
RECURSIVE WalkN(_, _)
WalkN(n, v) == IF n = 0 \/ v.todo = <<>> \/ v.bad # "" THEN v ELSE WalkN(n - 1, WalkStep(v))
WalkOn ==
    /\ ph = "walk" /\ w.todo # <<>> /\ w.bad = ""
    /\ w' = WalkN(IF Len(A.nodes) <= 700 THEN 1 ELSE 64, w)
    /\ UNCHANGED <<k, ph, B, s, A>>

\* References to one item remain references to one item, unless that item is
\* a container that was not behind a reference where it stands, or an object or
\* weak reference (these are written out wherever they are mentioned), or a
\* scalar (each reference to one becomes a pointer to a copy of it), or a
\* container that holds a reference to itself (that one is recorded, but others
\* may be written out).
RECURSIVE ReachFrom(_, _)
ReachFrom(todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET new == UNION {{A.nodes[n].c[i] : i \in 1..Len(A.nodes[n].c)} : n \in todo} \ seen
         IN ReachFrom(new, seen \cup new)
Moved(n) == \/ A.nodes[n].k # "refn" /\ n \in ReachFrom({n}, {})
            \/ A.nodes[n].k \in {"weak", "obj", "leaf"}
            \/ \E q \in w.seen : ~q[3] /\ Real(A.nodes, q[1]) = n
Shared == \A x, y \in w.rel : x[1] = y[1] /\ x[2] # y[2] => Moved(x[1])

AfterWalk ==
    /\ ph = "walk" /\ (w.todo = <<>> \/ w.bad # "")
    /\ Judged(IF w.bad # "" THEN "BAD " \o w.bad
              ELSE IF ~Shared THEN "BAD sharing lost"
              ELSE "ok")

Next == Envelope \/ Parse \/ AfterOne \/ AfterTwo \/ WalkOn \/ AfterWalk
Spec == Init /\ [][Next]_vars
MachineSane == ph \in {"one", "two"} => Sane(B, s, Shift(Doc(Recs[k])))
=============================================================================
