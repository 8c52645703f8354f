------------------------------ MODULE SrlTyped ------------------------------
(***************************************************************************)
(* What decoding a body into a destination of a given Go type gives, in    *)
(* each of the decoder's modes.                                            *)
(*                                                                         *)
(* Types are numbered entries of a table T:                                *)
(*   k   "bool" "int" "uint" "f32" "f64" "str" "slice" "arr" "map"         *)
(*       "struct" "ptr" "any" (empty interface) "perl" "other"             *)
(*   n   bits of an integer, length of an array, 1 for a map whose keys    *)
(*       are strings, and which Perl wrapper a pointer is to: 1 object,    *)
(*       2 weak reference, 3 regexp, 4 undef, 5 frozen object              *)
(*   e   element type        fs, ks, x   field types, keys, and 1 if the   *)
(*       field takes part, 0 if not, 2 if it is unexported but has a tag   *)
(*   u   how the type unmarshals frozen objects: 0 not at all, 1 and 2 the *)
(*       two test types, 3 in a way of its own                             *)
(* Values are terms                                                        *)
(*   k   "leaf" (a: its token), "slice" (also for arrays), "map" (ks       *)
(*       sorted), "struct" (c: all fields), "ptr", "any" (a: the tokens of *)
(*       SrlGoView)                                                        *)
(* nil and empty containers count as equal.                                *)
(*                                                                         *)
(* Fill(C, t, i, d, A): node d decoded into type t over the content i.     *)
(* A accumulates                                                           *)
(*   st     "ok", "err" (does not fit: the call must fail), "loose"        *)
(*   v      the resulting term                                             *)
(*   env    node -> the type it was decoded to and the value it got        *)
(*   calls  what was handed to unmarshal methods, in order                 *)
(***************************************************************************)
EXTENDS SrlGoView

\* o: identity of a map, of what a pointer points to, of a slice's elements; 0: none
Thing(k, a, c, ks, o) == [k |-> k, a |-> a, c |-> c, ks |-> ks, o |-> o]
Term(k, a, c, ks) == Thing(k, a, c, ks, 0)
\* the identity of what node d makes for a destination of type t
Made(d, t) == 1000000 + 1000 * d + t
LeafTerm(tok) == Term("leaf", tok, <<>>, <<>>)
AnyTerm(toks) == Term("any", toks, <<>>, <<>>)
NilAny == AnyTerm(<< <<K_NIL>> >>)

AccInit == [st |-> "ok", v |-> LeafTerm(<<K_NIL>>), env |-> NoFn, calls |-> <<>>, why |-> ""]
Misfit(A, w) == [A EXCEPT !.st = "err", !.why = w]
Vague(A, w)  == [A EXCEPT !.st = "loose", !.why = w]
Gives(A, v)  == [A EXCEPT !.v = v]

\* ---- numbers ----------------------------------------------------------------
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
BitLen(d) == IF d = <<>> THEN 0 ELSE 7 * (Len(d) - 1) + Bits(d[Len(d)])
\* an integer token is <<K_INT, sign>> \o digits of n or of -1-n
FitsInt(tok, bits) == BitLen(SubSeq(tok, 3, Len(tok))) <= bits - 1
FitsUint(tok, bits) == tok[2] = 0 /\ BitLen(SubSeq(tok, 3, Len(tok))) <= bits
NormInt(tok) == IF BitLen(SubSeq(tok, 3, Len(tok))) = 64 THEN <<K_UINT>> \o Tail(tok) ELSE <<K_INT>> \o Tail(tok)

\* IEEE single to double and back, where that is exact; <<>> where it is not
Widen(b) ==
    LET sign == b[4] \div 128
        exp == (b[4] % 128) * 2 + b[3] \div 128
        man == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
        e == IF exp = 0 THEN 0 ELSE IF exp = 255 THEN 2047 ELSE exp + 896
    IN IF (exp = 0 \/ exp = 255) /\ man # 0 THEN <<>>
       ELSE <<0, 0, 0, (man % 8) * 32, (man \div 8) % 256, (man \div 2048) % 256,
              (e % 16) * 16 + man \div 524288, sign * 128 + e \div 16>>
Narrow(b) ==
    LET sign == b[8] \div 128
        e == (b[8] % 128) * 16 + b[7] \div 16
        zero == e = 0 /\ \A j \in 1..6 : b[j] = 0 /\ b[7] % 16 = 0
        inf == e = 2047 /\ b[7] % 16 = 0 /\ \A j \in 1..6 : b[j] = 0
        exp == IF zero THEN 0 ELSE IF inf THEN 255 ELSE e - 896
        man == (b[7] % 16) * 524288 + b[6] * 2048 + b[5] * 8 + b[4] \div 32
    IN IF b[1] # 0 \/ b[2] # 0 \/ b[3] # 0 \/ b[4] % 32 # 0 THEN <<>>
       ELSE IF ~zero /\ ~inf /\ (e < 897 \/ e > 1150) THEN <<>>
       ELSE <<man % 256, (man \div 256) % 256, (exp % 2) * 128 + man \div 65536, sign * 128 + exp \div 2>>

\* ---- zero values --------------------------------------------------------------
RECURSIVE Zero(_, _)
Zero(T, t) ==
    LET y == T[t] IN
    CASE y.k = "bool" -> LeafTerm(<<K_BOOL, 0>>)
      [] y.k \in {"int", "uint"} -> LeafTerm(<<K_INT, 0>>)
      [] y.k = "f32" -> LeafTerm(<<K_F32, 0, 0, 0, 0>>)
      [] y.k = "f64" -> LeafTerm(<<K_F64, 0, 0, 0, 0, 0, 0, 0, 0>>)
      [] y.k = "str" -> LeafTerm(<<K_STR>>)
      [] y.k = "slice" -> Term("slice", <<>>, <<>>, <<>>)
      [] y.k = "arr" -> Term("slice", <<>>, [j \in 1..y.n |-> Zero(T, y.e)], <<>>)
      [] y.k = "map" -> Term("map", <<>>, <<>>, <<>>)
      [] y.k = "struct" -> Term("struct", <<>>, [j \in 1..Len(y.fs) |-> Zero(T, y.fs[j])], <<>>)
      [] y.k = "ptr" -> Term("ptr", <<>>, <<>>, <<>>)
      [] y.k \in {"any", "perl"} -> NilAny
      [] OTHER -> LeafTerm(<<98>>)

\* ---- leaves --------------------------------------------------------------------
IsByte(T, t) == T[t].k = "uint" /\ T[t].n = 8
ByteTerms(s) == [j \in 1..Len(s) |-> LeafTerm(<<K_INT, 0>> \o DigitsOf(s[j]))]

FillLeaf(T, t, i, d, tok, A) ==
    LET y == T[t]
        str == Tail(tok)
    IN
    CASE tok[1] \in {K_UNDEF, K_CUNDEF} ->
           Gives(A, IF y.k \in {"ptr", "map", "slice"} THEN Zero(T, t) ELSE i)
      [] y.k = "ptr" -> Vague(A, "scalar into a pointer")
      [] tok[1] \in {K_INT, K_UINT} ->
           IF y.k = "int" THEN
                IF tok[1] = K_INT /\ FitsInt(tok, y.n) THEN Gives(A, LeafTerm(NormInt(tok)))
                ELSE Vague(A, "integer too large")
           ELSE IF y.k = "uint" THEN
                IF FitsUint(tok, y.n) THEN Gives(A, LeafTerm(NormInt(tok)))
                ELSE Vague(A, "integer too large")
           ELSE Misfit(A, "integer")
      [] tok[1] = K_F32 ->
           IF y.k = "f32" THEN (IF Widen(str) = <<>> THEN Vague(A, "inexact") ELSE Gives(A, LeafTerm(tok)))
           ELSE IF y.k = "f64" THEN
                LET b == Widen(str) IN
                IF b = <<>> THEN Vague(A, "inexact") ELSE Gives(A, LeafTerm(<<K_F64>> \o b))
           ELSE Misfit(A, "float")
      [] tok[1] = K_F64 ->
           IF y.k = "f64" THEN Gives(A, LeafTerm(tok))
           ELSE IF y.k = "f32" THEN
                LET b == Narrow(str) IN
                IF b = <<>> THEN Vague(A, "inexact") ELSE Gives(A, LeafTerm(<<K_F32>> \o b))
           ELSE Misfit(A, "double")
      [] tok[1] = K_BOOL ->
           IF y.k = "bool" THEN Gives(A, LeafTerm(tok)) ELSE Misfit(A, "bool")
      [] tok[1] = K_STR ->
           IF y.k = "str" THEN Gives(A, LeafTerm(tok))
           ELSE IF y.k \in {"slice", "arr"} /\ IsByte(T, y.e) THEN Vague(A, "text into bytes")
           ELSE Misfit(A, "string")
      [] OTHER -> \* K_BIN
           IF y.k = "str" THEN Gives(A, LeafTerm(<<K_STR>> \o str))
           ELSE IF y.k = "slice" /\ IsByte(T, y.e) THEN Gives(A, Thing("slice", <<>>, ByteTerms(str), <<>>, Made(d, t)))
           ELSE IF y.k = "arr" /\ IsByte(T, y.e) THEN
                LET b == ByteTerms(str) IN
                Gives(A, Term("slice", <<>>, [j \in 1..y.n |-> IF j <= Len(b) THEN b[j] ELSE i.c[j]], <<>>))
           ELSE IF y.k \in {"slice", "arr"} /\ T[y.e].k \in {"uint", "other"} THEN Vague(A, "bytes of a kind")
           ELSE Misfit(A, "binary")

\* ---- struct fields ---------------------------------------------------------------
\* the first letter of every word as a capital (bytes above 127 are not considered)
Lower(c) == c >= 97 /\ c <= 122
WordByte(c) == Lower(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 48 /\ c <= 57) \/ c = 95
Title(key) == [j \in 1..Len(key) |->
                 IF Lower(key[j]) /\ (j = 1 \/ ~WordByte(key[IF j = 1 THEN 1 ELSE j - 1])) THEN key[j] - 32 ELSE key[j]]
FieldsFor(y, key) == {j \in 1..Len(y.fs) : y.x[j] # 0 /\ y.ks[j] = key}
MaxOfSet(S) == CHOOSE x \in S : \A z \in S : z <= x
\* 0 if there is none
FieldOf(y, key) ==
    LET a == FieldsFor(y, key)
        b == FieldsFor(y, Title(key))
    IN IF a # {} THEN MaxOfSet(a) ELSE IF b # {} THEN MaxOfSet(b) ELSE 0
Foreign(key) == \E j \in 1..Len(key) : key[j] > 127

\* ---- frozen objects ---------------------------------------------------------------
Payload(nodes, d) == Tail(nodes[FrozenPayload(nodes, nodes[d].c[1])].a)
Refuse == <<114, 101, 102, 117, 115, 101>>
\* the methods of the test types: 1 keeps the bytes but refuses "refuse", 2 keeps
\* what follows a "<"
Accepts(u, b) == IF u = 1 THEN b # Refuse ELSE b # <<>> /\ b[1] = 60
Unmarshalled(u, b) == IF u = 1 THEN Term("struct", <<>>, <<Term("slice", <<>>, ByteTerms(b), <<>>)>>, <<>>)
                      ELSE LeafTerm(<<K_STR>> \o Tail(b))
Call(A, u, b, v) ==
    LET z == [A EXCEPT !.calls = Append(@, b)] IN
    IF Accepts(u, b) THEN Gives(z, v) ELSE Misfit(z, "refused")

\* the frozen nodes inside node d, in the order they are met
RECURSIVE Within(_, _)
Within(nodes, d) ==
    IF nodes[d].k \in {"refp", "alias", "leaf", "re"} THEN {d}
    ELSE IF nodes[d].k = "frz" THEN {d}
    ELSE {d} \cup UNION {Within(nodes, nodes[d].c[j]) : j \in 1..Len(nodes[d].c)}
FrozenIn(C, d) == SetToSortSeq({n \in Within(C.nodes, d) :
                     C.nodes[n].k = "frz" /\ C.nodes[n].a \in DOMAIN C.reg}, <)
\* decode node d without a type: registered classes are unmarshalled
RECURSIVE CallAll(_, _, _, _)
CallAll(C, q, j, A) ==
    IF j > Len(q) \/ A.st # "ok" THEN A
    ELSE LET b == Payload(C.nodes, q[j]) IN
         CallAll(C, q, j + 1, Call(A, C.reg[C.nodes[q[j]].a], b, A.v))
\* (in Perl-compatible mode none are)
Untyped(C, d) == AnyTerm(Tokens(C.nodes, d, [perl |-> C.perl, nori |-> C.nori, reg |-> IF C.perl THEN NoFn ELSE C.reg]))
Generic(C, d, A) ==
    LET z == IF C.perl THEN A ELSE CallAll(C, FrozenIn(C, d), 1, A) IN
    IF z.st # "ok" THEN z ELSE Gives(z, Untyped(C, d))

\* what a node stands for once references and blessings are taken off
RECURSIVE Inner(_, _)
Inner(nodes, d) == IF nodes[d].k \in {"refn", "weak", "obj"} THEN Inner(nodes, nodes[d].c[1]) ELSE d

\* ---- everything ---------------------------------------------------------------------
RECURSIVE Fill(_, _, _, _, _), FillElems(_, _, _, _, _, _, _), FillPairs(_, _, _, _, _, _, _),
          FillFields(_, _, _, _, _, _)

\* elements j.. of node d into type e over the terms ini; those beyond lim are dropped
FillElems(C, e, ini, d, j, lim, A) ==
    LET nd == C.nodes[d] IN
    IF j > Len(nd.c) \/ A.st # "ok" THEN A
    ELSE IF j > lim THEN FillElems(C, e, ini, d, j + 1, lim, Gives(Generic(C, nd.c[j], A), A.v))
    ELSE LET z == Fill(C, e, ini[j], nd.c[j], A) IN
         IF z.st # "ok" THEN z
         ELSE FillElems(C, e, ini, d, j + 1, lim, Gives(z, [A.v EXCEPT !.c[j] = z.v]))

\* A.v.c is the function from keys to terms here
FillPairs(C, e, d, j, m, A, o) ==
    LET nd == C.nodes[d] IN
    IF A.st # "ok" THEN A
    ELSE IF j > Len(nd.c) THEN
         LET keys == SetToSortSeq(DOMAIN m, BytesLess) IN
         Gives(A, Thing("map", <<>>, [x \in 1..Len(keys) |-> m[keys[x]]], keys, o))
    ELSE LET key == nd.ks[j]
             old == IF key \in DOMAIN m THEN m[key] ELSE Zero(C.T, e)
             z == Fill(C, e, old, nd.c[j], A)
         IN IF z.st # "ok" THEN z ELSE FillPairs(C, e, d, j + 1, Put(m, key, z.v), z, o)

FillFields(C, y, d, j, v, A) ==
    LET nd == C.nodes[d] IN
    IF A.st # "ok" THEN A
    ELSE IF j > Len(nd.c) THEN Gives(A, v)
    ELSE LET key == nd.ks[j]
             f == FieldOf(y, key)
         IN IF f = 0 THEN
              IF Foreign(key) THEN Vague(A, "letters beyond ASCII")
              ELSE FillFields(C, y, d, j + 1, v, Generic(C, nd.c[j], A))
            ELSE IF y.x[f] = 2 THEN Vague(A, "tagged but unexported")
            ELSE LET z == Fill(C, y.fs[f], v.c[f], nd.c[j], A) IN
                 IF z.st # "ok" THEN z
                 ELSE FillFields(C, y, d, j + 1, [v EXCEPT !.c[f] = z.v], z)

FillFrozen(C, t, i, d, A) ==
    LET T == C.T
        y == T[t]
        b == Payload(C.nodes, d)
        u == IF y.k = "ptr" THEN T[y.e].u ELSE y.u
    IN IF u = 3 THEN Vague(A, "a type of its own")
       ELSE IF u # 0 THEN
            LET v == IF Accepts(u, b) THEN Unmarshalled(u, b) ELSE i IN
            Call(A, u, b, IF y.k = "ptr" THEN Thing("ptr", <<>>, <<v>>, <<>>, IF i.c = <<>> THEN Made(d, t) ELSE i.o) ELSE v)
       ELSE IF y.k = "slice" /\ IsByte(T, y.e) THEN Vague(A, "frozen into bytes")
       ELSE Misfit(A, "frozen object")

FillAny(C, i, d, A) ==
    LET n == Inner(C.nodes, d)
        held == i.a[1]
    IN IF held[1] = 19 THEN \* it holds something that unmarshals
            IF C.perl THEN Vague(A, "an unmarshaler in Perl mode")
            ELSE IF C.nodes[n].k = "frz" THEN
                LET b == Payload(C.nodes, n) IN
                Call(A, held[2], b, AnyTerm(<< <<19, held[2]>> \o b >>))
            ELSE Vague(A, "not a frozen object")
       ELSE Generic(C, d, A)

\* The wrapper that stands for Perl's own kinds of things. They fit nothing else
\* (but an interface); what a wrapper makes of anything else is its own affair.
WrapperOf(nd) == CASE nd.k = "obj" -> 1 [] nd.k = "weak" -> 2 [] nd.k = "re" -> 3
                   [] nd.k = "leaf" /\ nd.a[1] \in {K_UNDEF, K_CUNDEF} -> 4
                   [] nd.k = "frz" -> 5 [] OTHER -> 0
FillWrapped(C, t, d, A) ==
    LET w == WrapperOf(C.nodes[d]) IN
    IF C.T[t].k = "perl" /\ C.T[t].n = w /\ (C.perl \/ w = 3) THEN Gives(A, Untyped(C, d))
    ELSE Vague(A, "Perl's own")

Fill(C, t, i, d, A) ==
    LET T == C.T
        y == T[t]
        nd == C.nodes[d]
        through == nd.k \in {"refn", "aref"} \/ (~C.perl /\ nd.k \in {"weak", "obj"})
        r == CASE through -> Fill(C, t, i, nd.c[1], A)
               [] y.k = "perl" /\ nd.k \notin {"refp", "alias"} -> FillWrapped(C, t, d, A)
               [] C.perl /\ WrapperOf(nd) \notin {0, 3} -> FillWrapped(C, t, d, A)
               [] nd.k = "leaf" -> FillLeaf(T, t, i, d, nd.a, A)
               [] nd.k \in {"refp", "alias"} ->
                    IF nd.c[1] \in DOMAIN A.env /\ A.env[nd.c[1]][1] = t
                    THEN Gives(A, A.env[nd.c[1]][2]) ELSE Vague(A, "reference")
               [] nd.k = "re" -> IF y.k = "other" THEN Vague(A, "regexp") ELSE Misfit(A, "regexp")
               [] nd.k = "frz" -> FillFrozen(C, t, i, d, A)
               [] nd.k = "arr" ->
                    IF y.k = "slice" THEN
                       LET ini == IF i.c = <<>> THEN [j \in 1..Len(nd.c) |-> Zero(T, y.e)] ELSE i.c IN
                       FillElems(C, y.e, ini, d, 1, Len(ini), 
                                         Gives(A, Thing("slice", <<>>, ini, <<>>, IF i.c = <<>> THEN Made(d, t) ELSE i.o)))
                    ELSE IF y.k = "arr" THEN FillElems(C, y.e, i.c, d, 1, Len(i.c), Gives(A, i))
                    ELSE IF y.k = "ptr" THEN Vague(A, "array into a pointer")
                    ELSE Misfit(A, "array")
               [] OTHER -> \* hash
                    IF y.k = "map" THEN
                       IF y.n = 1 THEN FillPairs(C, y.e, d, 1,
                            [key \in {i.ks[j] : j \in 1..Len(i.ks)} |-> i.c[CHOOSE j \in 1..Len(i.ks) : i.ks[j] = key]], A,
                            IF i.o = 0 THEN Made(d, t) ELSE i.o)
                       ELSE IF nd.c = <<>> THEN Gives(A, i) ELSE Misfit(A, "map keys")
                    ELSE IF y.k = "struct" THEN FillFields(C, y, d, 1, i, A)
                    ELSE IF y.k = "ptr" THEN
                       IF T[y.e].k \notin {"map", "struct", "ptr"} THEN Misfit(A, "hash into a pointer")
                       ELSE LET z == Fill(C, y.e, IF i.c = <<>> THEN Zero(T, y.e) ELSE i.c[1], d, A) IN
                            IF z.st = "ok" THEN Gives(z, Thing("ptr", <<>>, <<z.v>>, <<>>, IF i.c = <<>> THEN Made(d, t) ELSE i.o)) ELSE z
                    ELSE Misfit(A, "hash")
    IN
    IF A.st # "ok" THEN A
    ELSE IF y.k = "any" THEN FillAny(C, i, d, A)
    ELSE IF r.st # "ok" THEN r
    ELSE [r EXCEPT !.env = Put(@, d, <<t, r.v>>)]

\* ---- references between typed and untyped parts --------------------------------------
\* What a reference gives is only claimed where it and its target are decoded
\* to the same type, or both without one; and where nothing is filled twice.
CrossRefs(C, A) ==
    \E n \in 1..Len(C.nodes) :
        /\ C.nodes[n].k \in {"refp", "alias"}
        /\ n \notin DOMAIN A.env
        /\ C.nodes[n].c[1] \in DOMAIN A.env
HasRefs(C) == \E n \in 1..Len(C.nodes) : C.nodes[n].k \in {"refp", "alias"}
Repeats(q) == Cardinality({q[j] : j \in 1..Len(q)}) # Len(q)
HasRepeats(C) == \E n \in 1..Len(C.nodes) : C.nodes[n].k = "hash" /\ Repeats([j \in 1..Len(C.nodes[n].ks) |-> Title(C.nodes[n].ks[j])])

\* a leaf met again inside a COPY may have been decoded to another type there
LeafRefs(C) == \E n \in 1..Len(C.nodes) : C.nodes[n].k \in {"refp", "alias"} /\ C.nodes[C.nodes[n].c[1]].k = "leaf"

Decoded(C, t, i, root) ==
    LET A == Fill(C, t, i, root, AccInit) IN
    IF A.st = "loose" THEN A
    ELSE IF CrossRefs(C, A) THEN Vague(A, "reference into a typed part")
    ELSE IF C.ncopy > 0 /\ LeafRefs(C) THEN Vague(A, "references to leaves and copies")
    ELSE IF HasRefs(C) /\ HasRepeats(C) THEN Vague(A, "references and repeated keys")
    ELSE A

\* ---- comparing with what was there after the call --------------------------------------
\* all pairs of (expected, actual) identities, or <<0, 0>> among them where the terms differ
RECURSIVE Identities(_, _)
Identities(x, y) ==
    IF x.k # y.k \/ x.a # y.a \/ x.ks # y.ks \/ Len(x.c) # Len(y.c) THEN {<<0, 0>>}
    ELSE (IF x.o = 0 \/ y.o = 0 \/ (x.k # "map" /\ x.c = <<>>) THEN {} ELSE {<<x.o, y.o>>})
         \cup UNION {Identities(x.c[j], y.c[j]) : j \in 1..Len(x.c)}
SameShape(x, y) == <<0, 0>> \notin Identities(x, y)
\* what is one thing and what is not
SameSharing(x, y) == LET I == Identities(x, y) IN
    \A a, b \in I : a[1] = b[1] <=> a[2] = b[2]
\* what was there before is filled, not replaced
\* and what is new shares nothing with it
RECURSIVE Everything(_)
Everything(x) == {x.o} \cup UNION {Everything(x.c[j]) : j \in 1..Len(x.c)}
Fresh(i, x, y) == LET I == {a \in Identities(x, y) : a[1] >= 1000000} IN
                  I = {} \/ Everything(i) \cap {a[2] : a \in I} = {}
InPlace(x, y) == \A a \in Identities(x, y) : a[1] < 1000000 => a[1] = a[2]
=============================================================================
