------------------------------ MODULE SrlValue ------------------------------
(***************************************************************************)
(* What the encoder owes: the relation between a Go value and the graph of *)
(* nodes (SrlBody) of the document that encodes it, and between a Go value *)
(* and the one decoded from its document.                                  *)
(*                                                                         *)
(* A Go value is a graph V of records                                      *)
(*   k  "leaf" (a: its token), "slice", "map", "struct" (a: type name),    *)
(*      "ptr" (nil: no child), "obj" (a: class), "re" (ks: pattern and     *)
(*      modifiers), "weak", "frz" (a: class, ks: <<data>>; a value that    *)
(*      marshals itself), "bad" (not encodable), "cut" (too large to show) *)
(*   p  1 if it is one of the Perl types behind a pointer                  *)
(*   c  children   ks  map keys or field names   o  identity, 0 if none    *)
(* where two nodes have the same identity iff they are equal pointers of   *)
(* one type, one map, or slices or strings of one type on the same memory. *)
(*                                                                         *)
(* The relation is decided by a walk over pairs of nodes, one pair a step. *)
(***************************************************************************)
EXTENDS SrlGoView

\* unsigned numbers below 2^63 and signed ones are the same integers
Norm(tok) == IF tok[1] = K_UINT /\ Len(tok) < 12 THEN <<K_INT>> \o SubSeq(tok, 2, Len(tok)) ELSE tok

WalkInit(v, d) ==
    [todo |-> << <<v, d, FALSE>> >>, seen |-> {<<v, d, FALSE>>}, rel |-> {}, bad |-> ""]
WalkDone(w) == w.todo = <<>> \/ w.bad # ""

No(why)   == [ok |-> FALSE, why |-> why, next |-> <<>>]
Yes(next) == [ok |-> TRUE, why |-> "", next |-> next]

\* pairs for the entries of two maps with the same distinct keys
SameKeys(a, b) == /\ Len(a) = Len(b)
                  /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
                  /\ Cardinality({b[i] : i \in 1..Len(b)}) = Len(b)
IndexOf(ks, key) == CHOOSE i \in 1..Len(ks) : ks[i] = key
EntryPairs(v, d) == [i \in 1..Len(v.c) |-> <<v.c[i], d.c[IndexOf(d.ks, v.ks[i])], FALSE>>]

\* ---- Go value against document --------------------------------------------
\* opt: perl;  r: the value is the referent of a pointer (Perl-compatible
\* encoding puts arrays and hashes behind a reference unless it already is one)
ArrHash(D, d, want) ==
    IF D[d].k = want THEN d ELSE 0
Behind(D, d) == IF D[d].k \in {"refn", "aref"} THEN D[d].c[1] ELSE 0

DocPair(V, D, perl, v, d, r) ==
    LET x == V[v]
        y == D[d]
        \* the container node that must be here
        at == IF perl /\ ~r THEN Behind(D, d) ELSE d
        kid == IF perl THEN Behind(D, y.c[1]) ELSE y.c[1]
    IN
    CASE x.k = "leaf" ->
           IF y.k # "leaf" THEN No("kind")
           ELSE IF x.a = <<K_NIL>> THEN (IF y.a = <<K_UNDEF>> THEN Yes(<<>>) ELSE No("undef"))
           ELSE IF Norm(x.a) = y.a THEN Yes(<<>>) ELSE No("scalar")
      [] x.k = "slice" ->
           IF at = 0 THEN No("not behind a reference")
           ELSE IF D[at].k # "arr" THEN No("kind")
           ELSE IF Len(D[at].c) # Len(x.c) THEN No("length")
           ELSE Yes([i \in 1..Len(x.c) |-> <<x.c[i], D[at].c[i], FALSE>>])
      [] x.k = "map" ->
           IF at = 0 THEN No("not behind a reference")
           ELSE IF D[at].k # "hash" THEN No("kind")
           ELSE IF ~SameKeys(x.ks, D[at].ks) THEN No("keys")
           ELSE Yes(EntryPairs(x, D[at]))
      [] x.k = "struct" ->
           IF y.k # "obj" THEN No("kind")
           ELSE IF y.a # x.a THEN No("class")
           ELSE IF kid = 0 THEN No("not behind a reference")
           ELSE IF D[kid].k # "hash" THEN No("kind")
           ELSE IF ~SameKeys(x.ks, D[kid].ks) THEN No("fields")
           ELSE Yes(EntryPairs(x, D[kid]))
      [] x.k = "ptr" ->
           IF y.k \notin {"refn", "aref", "refp"} THEN No("kind")
           ELSE IF x.c = <<>> THEN (IF D[y.c[1]].k = "leaf" /\ D[y.c[1]].a = <<K_UNDEF>>
                                    THEN Yes(<<>>) ELSE No("undef"))
           ELSE Yes(<< <<x.c[1], y.c[1], TRUE>> >>)
      [] x.k = "obj" ->
           IF y.k # "obj" THEN No("kind")
           ELSE IF y.a # x.a THEN No("class")
           ELSE Yes(<< <<x.c[1], y.c[1], FALSE>> >>)
      [] x.k = "weak" ->
           IF y.k # "weak" THEN No("kind") ELSE Yes(<< <<x.c[1], y.c[1], FALSE>> >>)
      [] x.k = "re" ->
           IF y.k = "re" /\ y.ks = x.ks THEN Yes(<<>>) ELSE No("regexp")
      [] x.k = "frz" ->
           IF y.k # "frz" THEN No("kind")
           ELSE IF y.a # x.a THEN No("class")
           ELSE LET b == FrozenPayload(D, y.c[1]) IN
                IF b = 0 THEN No("frozen payload")
                ELSE IF D[b].a = <<K_BIN>> \o x.ks[1] THEN Yes(<<>>) ELSE No("frozen data")
      [] OTHER -> No("not encodable")

\* ---- Go value against Go value --------------------------------------------
\* Equal up to what a round trip does not claim to retain: pointers (an
\* interface has no room for them), the name of a struct type where the
\* destination is an interface, nil containers against empty ones.
RECURSIVE Through(_, _, _)
Through(W, w, n) == IF W[w].k = "ptr" /\ W[w].c # <<>> /\ n < 40 THEN Through(W, W[w].c[1], n + 1) ELSE w

IsNil(x) == (x.k = "leaf" /\ x.a = <<K_NIL>>) \/ (x.k = "ptr" /\ x.c = <<>>)
SamePair(V, W, v0, w0) ==
    LET x == V[Through(V, v0, 0)]
        y == W[Through(W, w0, 0)]
        m == {"map", "struct"}
    IN
    IF IsNil(x) \/ IsNil(y) THEN (IF IsNil(x) /\ IsNil(y) THEN Yes(<<>>) ELSE No("nil"))
    ELSE
    CASE x.k = "leaf" ->
           IF y.k # "leaf" THEN No("kind")
           ELSE IF Norm(x.a) = Norm(y.a) THEN Yes(<<>>) ELSE No("scalar")
      [] x.k = "slice" ->
           IF y.k # "slice" THEN No("kind")
           ELSE IF Len(y.c) # Len(x.c) THEN No("length")
           ELSE Yes([i \in 1..Len(x.c) |-> <<x.c[i], y.c[i], FALSE>>])
      [] x.k \in m ->
           IF y.k \notin m THEN No("kind")
           ELSE IF ~SameKeys(x.ks, y.ks) THEN No("keys")
           ELSE Yes(EntryPairs(x, y))
      [] x.k = "obj" ->
           IF y.k # "obj" \/ y.a # x.a THEN No("object") ELSE Yes(<< <<x.c[1], y.c[1], FALSE>> >>)
      [] x.k = "weak" ->
           IF y.k # "weak" THEN No("kind") ELSE Yes(<< <<x.c[1], y.c[1], FALSE>> >>)
      [] x.k = "re" -> IF y.k = "re" /\ y.ks = x.ks THEN Yes(<<>>) ELSE No("regexp")
      [] x.k = "frz" -> IF y.k = "frz" /\ y.a = x.a /\ y.ks = x.ks THEN Yes(<<>>) ELSE No("frozen")
      [] OTHER -> No("not encodable")

\* ---- the walk ---------------------------------------------------------------
\* what: "doc" or "same"
WalkStep(V, D, what, perl, w) ==
    LET p == Head(w.todo)
        res == IF what = "doc" THEN DocPair(V, D, perl, p[1], p[2], p[3])
               ELSE SamePair(V, D, p[1], p[2])
        fresh == SelectSeq(res.next, LAMBDA q : q \notin w.seen)
        isRef == what = "doc" /\ V[p[1]].k = "ptr" /\ V[p[1]].c # <<>> /\ res.ok
    IN IF ~res.ok THEN [w EXCEPT !.bad = res.why]
       ELSE [w EXCEPT !.todo = Tail(@) \o fresh,
                      !.seen = @ \cup {fresh[i] : i \in 1..Len(fresh)},
                      !.rel = IF isRef THEN @ \cup {<<V[p[1]].o, V[V[p[1]].c[1]].o, D[p[2]].c[1]>>} ELSE @]

\* large values are walked some steps at a time
RECURSIVE WalkN(_, _, _, _, _, _)
WalkN(n, V, D, what, perl, w) ==
    IF n = 0 \/ WalkDone(w) THEN w ELSE WalkN(n - 1, V, D, what, perl, WalkStep(V, D, what, perl, w))
WalkSteps(V, D, what, perl, w) ==
    IF Len(V) <= 700 THEN WalkStep(V, D, what, perl, w) ELSE WalkN(64, V, D, what, perl, w)

\* ---- sharing ----------------------------------------------------------------
\* after a walk against a document. rel holds, for every pointer met, its
\* identity, the identity of what it points to, and the item it became.
\* Every pointer became a reference to one item,
SharedOnce(w) == \A a, b \in w.rel : a[1] = b[1] => a[3] = b[3]
\* and two pointers to one item only if they are equal or lead to one thing.
\* An item that is also part of a container stands for one thing as well.
SharedRightly(V, D, w) ==
    LET targets == {D[n].c[1] : n \in {m \in 1..Len(D) : D[m].k = "refp"}} IN
    /\ \A a, b \in w.rel : a[3] = b[3] => a[1] = b[1] \/ (a[2] = b[2] /\ a[2] # 0)
    /\ \A a \in w.rel : a[3] \in targets =>
          \A s \in w.seen : s[2] = a[3] /\ ~s[3] => V[s[1]].o # 0 /\ V[s[1]].o = a[2]

\* ---- nesting depth ----------------------------------------------------------
\* The encoder counts slices, maps, structs and pointers on the way down.
Counts(x) == x.k \in {"slice", "map", "struct", "ptr"} \/ x.p = 1
\* is there a path down from v that counts left, and meets no pointer twice?
RECURSIVE Reaches(_, _, _, _)
Reaches(V, v, ptrs, left) ==
    LET now == IF Counts(V[v]) THEN left - 1 ELSE left IN
    IF now <= 0 THEN TRUE
    ELSE IF v \in ptrs THEN FALSE
    ELSE \E i \in 1..Len(V[v].c) :
            Reaches(V, V[v].c[i], IF V[v].k = "ptr" THEN ptrs \cup {v} ELSE ptrs, now)

\* is a node met again by a way that does not involve a pointer (endless)?
RECURSIVE Endless(_, _, _)
Endless(V, v, path) ==
    IF v \in path THEN TRUE
    ELSE IF V[v].k = "ptr" THEN FALSE
    ELSE \E i \in 1..Len(V[v].c) : Endless(V, V[v].c[i], path \cup {v})
=============================================================================
