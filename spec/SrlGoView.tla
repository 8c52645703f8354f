----------------------------- MODULE SrlGoView ------------------------------
(***************************************************************************)
(* What a body means to a Go program that decodes it into interface{}.     *)
(*                                                                         *)
(* A Go value is written as a sequence of tokens in preorder, each token a *)
(* sequence of numbers starting with its kind (K_... in SrlBody), maps in  *)
(* key order. Values with an identity (maps, non-empty slices, Perl object *)
(* and weak reference wrappers, pointers to interface{}) are numbered when *)
(* first met, and a further encounter is the token K_BACK with the number: *)
(* two values have equal tokens iff they are equal with equal sharing of   *)
(* these.                                                                  *)
(*                                                                         *)
(* mode: perl  Perl-compatible decoding;  nori  no referential integrity.  *)
(***************************************************************************)
EXTENDS SrlBody

LeafToken(tok, mode) ==
    IF tok[1] \in {K_UNDEF, K_CUNDEF} /\ ~mode.perl THEN <<K_NIL>> ELSE tok

\* positions of the pairs that survive (the last one of equal keys), by key
LastPairs(ks) == {i \in 1..Len(ks) : \A j \in (i+1)..Len(ks) : ks[j] # ks[i]}
SortedPairs(ks) == SetToSortSeqBy(LastPairs(ks), ks)

\* mode.reg, where there is one: classes of frozen objects that are unmarshalled,
\* and how (see SrlTyped); such an object is the token K_UNM, how, data
K_UNM == 19
Registered(mode, class) == "reg" \in DOMAIN mode /\ class \in DOMAIN mode.reg

RECURSIVE Emit(_, _, _, _), EmitAll(_, _, _, _), EmitPairs(_, _, _, _, _)

Add(acc, tok) == [acc EXCEPT !.t = Append(@, tok)]
\* number node id, or refer back to it
Named(acc, id) == id \in DOMAIN acc.m
Name(acc, id) == [acc EXCEPT !.m = Put(@, id, acc.n), !.n = @ + 1]
Back(acc, id) == Add(acc, <<K_BACK, acc.m[id]>>)

Emit(nodes, id, mode, acc) ==
    LET nd == nodes[id] IN
    CASE nd.k = "leaf" -> Add(acc, LeafToken(nd.a, mode))
      [] nd.k = "arr" ->
           IF nd.c = <<>> THEN Add(acc, <<K_SLICE>>)
           ELSE IF Named(acc, id) THEN Back(acc, id)
           ELSE EmitAll(nodes, nd.c, mode,
                        Add(Name(acc, id), <<K_SLICE>> \o DigitsOf(Len(nd.c))))
      [] nd.k = "hash" ->
           IF Named(acc, id) THEN Back(acc, id)
           ELSE LET ord == SortedPairs(nd.ks) IN
                EmitPairs(nodes, nd, ord, mode,
                          Add(Name(acc, id), <<K_MAP>> \o DigitsOf(Len(ord))))
      [] nd.k = "refn" ->
           IF ~mode.perl THEN Emit(nodes, nd.c[1], mode, acc)
           ELSE IF nd.a = <<>> THEN Emit(nodes, nd.c[1], mode, Add(acc, <<K_PTR>>))
           ELSE IF Named(acc, id) THEN Back(acc, id)
           ELSE Emit(nodes, nd.c[1], mode, Add(Name(acc, id), <<K_PTR>>))
      [] nd.k = "aref" ->
           IF ~mode.perl THEN Emit(nodes, nd.c[1], mode, acc)
           ELSE Emit(nodes, nd.c[1], mode, Add(acc, <<K_PTR>>))
      [] nd.k = "refp" ->
           IF mode.nori THEN Emit(nodes, nd.c[1], mode, acc)
           ELSE Emit(nodes, nd.c[1], mode, Add(acc, <<K_PTR>>))
      [] nd.k = "alias" -> Emit(nodes, nd.c[1], mode, acc)
      [] nd.k = "weak" ->
           IF ~mode.perl THEN Emit(nodes, nd.c[1], mode, acc)
           ELSE IF Named(acc, id) THEN Back(acc, id)
           ELSE Emit(nodes, nd.c[1], mode, Add(Name(acc, id), <<K_WEAK>>))
      [] nd.k = "obj" ->
           IF ~mode.perl THEN Emit(nodes, nd.c[1], mode, acc)
           ELSE IF Named(acc, id) THEN Back(acc, id)
           ELSE Emit(nodes, nd.c[1], mode, Add(Name(acc, id), <<K_OBJ>> \o nd.a))
      [] nd.k = "re" ->
           Add(Add(Add(acc, <<K_RE>>), <<K_BIN>> \o nd.ks[1]), <<K_BIN>> \o nd.ks[2])
      [] nd.k = "frz" ->
           LET b == FrozenPayload(nodes, nd.c[1]) IN
           IF Registered(mode, nd.a) THEN Add(acc, <<K_UNM, mode.reg[nd.a]>> \o Tail(nodes[b].a))
           ELSE Add(Add(acc, <<K_FRZ>> \o nd.a), nodes[b].a)

EmitAll(nodes, c, mode, acc) == FoldLeft(LAMBDA a, n : Emit(nodes, n, mode, a), acc, c)
EmitPairs(nodes, nd, ord, mode, acc) ==
    FoldLeft(LAMBDA a, j : Emit(nodes, nd.c[j], mode, Add(a, <<K_KEY>> \o nd.ks[j])), acc, ord)

Tokens(nodes, root, mode) ==
    Emit(nodes, root, mode, [t |-> <<>>, m |-> NoFn, n |-> 0]).t

\* Does the meaning bind in this mode?
Binding(s, mode) == (s.loose \ (IF mode.perl THEN {"d"} ELSE {})) = {}
=============================================================================
