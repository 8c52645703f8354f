------------------------------ MODULE SrlBody -------------------------------
(***************************************************************************)
(* The body of a Sereal document as a pushdown machine that reads one tag  *)
(* (or finishes one frame) per step and builds a graph of nodes.           *)
(*                                                                         *)
(* A machine state is a record (so that one state machine can be embedded  *)
(* in several specifications):                                             *)
(*   st     "run", "done", "err" (the bytes are not a Sereal body)         *)
(*   pos    next byte to read                                              *)
(*   stk    frames still waiting for something                             *)
(*   ret    node just completed, to be delivered to the top frame (0: none)*)
(*   nodes  the graph; node ids are positions in it                        *)
(*   trk    offset -> node, for items carrying the track flag              *)
(*   cls    offset -> class name, for strings used as class names          *)
(*   tags   positions where a tag was read as an item or string            *)
(*   uses   the hash keys and class names met: the string, whether by a    *)
(*          COPY, its kind (1: UTF8), whether a "key" or "class"           *)
(*   ncopy  how many COPY tags there are; vcopy: as items, not of strings  *)
(*          shorter than two bytes                                         *)
(*   loose  the format leaves the meaning open (or only the Go or only the *)
(*          Perl data model can express it); such a document binds nothing *)
(*          but the absence of crashes. "d": the default data model only.  *)
(*   why    the rule that was broken, for reports                          *)
(*   ld     whether LONG_DOUBLE is known (16 bytes, of any meaning)        *)
(*                                                                         *)
(* Offsets in a document relate to positions in B by  position = o - sh:   *)
(* sh = 0 from protocol version 2 on (1-based in the body), while version  *)
(* 1 counts from the start of the document.                                *)
(***************************************************************************)
EXTENDS SrlBytes

T_VARINT == 32      T_ZIGZAG == 33      T_FLOAT == 34       T_DOUBLE == 35
T_LDOUBLE == 36     T_UNDEF == 37       T_BINARY == 38      T_UTF8 == 39
T_REFN == 40        T_REFP == 41        T_HASH == 42        T_ARRAY == 43
T_OBJECT == 44      T_OBJECTV == 45     T_ALIAS == 46       T_COPY == 47
T_WEAKEN == 48      T_REGEXP == 49      T_FREEZE == 50      T_FREEZEV == 51
T_CUNDEF == 57      T_FALSE == 58       T_TRUE == 59        T_PAD == 63
T_EXTEND == 62

\* value tokens, shared by all modules and by the driver (see SrlGoView)
K_NIL == 0  K_BOOL == 1  K_INT == 2  K_UINT == 3  K_F32 == 4  K_F64 == 5
K_STR == 6  K_BIN == 7   K_SLICE == 8  K_MAP == 9  K_KEY == 10  K_BACK == 11
K_PTR == 12 K_UNDEF == 13 K_CUNDEF == 14 K_WEAK == 15 K_OBJ == 16 K_RE == 17
K_FRZ == 18  K_LD == 20

NoFn == [x \in {} |-> 0]

BodyInit == [st |-> "run", pos |-> 1, stk |-> <<>>, ret |-> 0, nodes |-> <<>>,
             trk |-> NoFn, cls |-> NoFn, tags |-> {}, uses |-> <<>>, ncopy |-> 0, vcopy |-> 0,
             loose |-> {}, why |-> "", ld |-> FALSE]
\* for readers that know LONG_DOUBLE, as the merger does and the decoder does not
BodyInitLd == [BodyInit EXCEPT !.ld = TRUE]

\* kk: the kinds of the strings that are keys, class name or regexp parts
Node(k, a, c, ks) == [k |-> k, a |-> a, c |-> c, ks |-> ks, kk |-> <<>>]
Frame(f, n, left, rp, key) == [f |-> f, n |-> n, left |-> left, rp |-> rp, key |-> key]

Err(s, w)   == [s EXCEPT !.st = "err", !.why = w]
Loosen(s, w) == [s EXCEPT !.loose = @ \cup {w}]

Top(s)    == s.stk[Len(s.stk)]
Pop(s)    == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
Push(s,f) == [s EXCEPT !.stk = Append(@, f)]
Put(fn, x, v) == [y \in DOMAIN fn \cup {x} |-> IF y = x THEN v ELSE fn[y]]

InCopy(s) == \E i \in 1..Len(s.stk) : s.stk[i].f = "copy"

\* frames that wait for a string (hash key, class name, regexp part)
WantsString(s) == Len(s.stk) > 0 /\ Top(s).f \in
                    {"key", "class", "fclass", "re1", "re2", "scopy"}

\* The frozen object's payload this library knows: a reference to an array of
\* exactly one binary string. The node of that string, or 0.
FrozenPayload(nodes, r) ==
    IF nodes[r].k # "refn" THEN 0
    ELSE LET a == nodes[r].c[1] IN
         IF nodes[a].k # "arr" \/ Len(nodes[a].c) # 1 THEN 0
         ELSE LET b == nodes[a].c[1] IN
              IF nodes[b].k = "leaf" /\ nodes[b].a[1] = K_BIN THEN b ELSE 0

Brief(nd) == nd.k = "leaf" /\ nd.a[1] \in {K_STR, K_BIN} /\ Len(nd.a) < 3

\* ---- completed nodes -----------------------------------------------------
\* Deliver the completed node s.ret to the frame on top of the stack.
Deliver(s) ==
    LET r == s.ret
        z == [s EXCEPT !.ret = 0]
    IN
    IF Len(s.stk) = 0 THEN [z EXCEPT !.st = "done", !.ret = r]
    ELSE LET f == Top(s)
             AddChild(t) == [t EXCEPT !.nodes[f.n].c = Append(@, r)]
             Close(t)    == [Pop(t) EXCEPT !.ret = f.n]
         IN
         CASE f.f = "arr" ->
                IF f.left = 1 THEN Close(AddChild(z))
                ELSE [AddChild(z) EXCEPT !.stk[Len(s.stk)].left = @ - 1]
           [] f.f = "val" ->
                LET t == [AddChild(z) EXCEPT !.nodes[f.n].ks = Append(@, f.key)] IN
                IF f.left = 1 THEN Close(t)
                ELSE [t EXCEPT !.stk[Len(s.stk)] =
                        Frame("key", f.n, f.left - 1, 0, <<>>)]
           [] f.f \in {"refn", "obj"} -> Close(AddChild(z))
           [] f.f = "frz" ->
                LET t == Close(AddChild(z)) IN
                IF FrozenPayload(s.nodes, r) = 0 THEN Loosen(t, "frozen payload") ELSE t
           [] f.f = "aref" -> Close(AddChild(z))
           [] f.f = "weak" ->
                LET t == Close(AddChild(z)) IN
                IF s.nodes[r].k \in {"refn", "aref", "refp", "obj", "alias", "frz", "re"}
                THEN t ELSE Loosen(t, "weak")
           [] f.f = "copy" -> [Pop(z) EXCEPT !.pos = f.rp, !.ret = r, !.vcopy = IF Brief(s.nodes[r]) THEN @ ELSE @ + 1]

\* Give a completed string to the frame that waits for it. at: the position of
\* the string's own tag (the target's position when it came through a COPY).
DeliverString(s0, str, kd, at, sh, copied) ==
    LET f == Top(s0)
        s == IF f.f \in {"key", "class", "fclass"} /\ ~InCopy(s0)
             THEN [s0 EXCEPT !.uses = Append(@, <<str, copied, kd, IF f.f = "key" THEN "key" ELSE "class">>)] ELSE s0
        up == Pop(s)
    IN
    CASE f.f = "key" ->
           [s EXCEPT !.nodes[f.n].kk = Append(@, kd), !.stk[Len(s.stk)] = Frame("val", f.n, f.left, 0, str)]
      [] f.f = "class" ->
           [s EXCEPT !.cls = Put(@, at + sh, <<str, kd>>), !.nodes[f.n].a = str, !.nodes[f.n].kk = <<kd>>,
                     !.stk[Len(s.stk)] = Frame("obj", f.n, 0, 0, <<>>)]
      [] f.f = "fclass" ->
           [s EXCEPT !.cls = Put(@, at + sh, <<str, kd>>), !.nodes[f.n].a = str, !.nodes[f.n].kk = <<kd>>,
                     !.stk[Len(s.stk)] = Frame("frz", f.n, 0, s.pos, <<>>)]
      [] f.f = "re1" ->
           [s EXCEPT !.nodes[f.n].ks = <<str>>, !.nodes[f.n].kk = <<kd>>,
                     !.stk[Len(s.stk)] = Frame("re2", f.n, 0, 0, <<>>)]
      [] f.f = "re2" ->
           [up EXCEPT !.nodes[f.n].ks = Append(@, str), !.nodes[f.n].kk = Append(@, kd), !.ret = f.n]
      [] OTHER -> Err(s, "internal")

\* ---- one tag -------------------------------------------------------------
AddNode(s, nd)  == [s EXCEPT !.nodes = Append(@, nd)]
NewId(s)        == Len(s.nodes) + 1

\* Register node id under the item's offset when the tag is tracked. An item
\* met again inside a COPY keeps its meaning only if it is a leaf.
Track(s, tracked, p, id, sh, isLeaf) ==
    IF ~tracked THEN s
    ELSE IF InCopy(s)
         THEN IF isLeaf THEN s ELSE [s EXCEPT !.trk = Put(@, p + sh, 0)]
         ELSE [s EXCEPT !.trk = Put(@, p + sh, id)]

Leaf(s, tracked, p, sh, tok, nx) ==
    LET id == NewId(s)
        t == Track(AddNode(s, Node("leaf", tok, <<>>, <<>>)), tracked, p, id, sh, TRUE)
    IN [t EXCEPT !.pos = nx, !.ret = id]

\* open a one-item frame (REFN, WEAKEN, ...)
Open(s, tracked, p, sh, kind, frame, nx) ==
    LET id == NewId(s)
        t == Track(AddNode(s, Node(kind, IF tracked THEN <<1>> ELSE <<>>, <<>>, <<>>)),
                   tracked, p, id, sh, FALSE)
    IN Push([t EXCEPT !.pos = nx], Frame(frame, id, 0, 0, <<>>))

Container(s, tracked, p, sh, kind, n, nx) ==
    LET id == NewId(s)
        t == [Track(AddNode(s, Node(kind, <<>>, <<>>, <<>>)), tracked, p, id, sh, FALSE)
                EXCEPT !.pos = nx]
    IN IF n = 0 THEN [t EXCEPT !.ret = id]
       ELSE Push(t, Frame(IF kind = "arr" THEN "arr" ELSE "key", id, n, 0, <<>>))

\* ARRAYREF_n and HASHREF_n: a reference node around a container node. The
\* track flag belongs to the reference.
RefContainer(s, tracked, p, sh, kind, n) ==
    LET rid == NewId(s)
        t1 == Track(AddNode(s, Node("aref", <<>>, <<>>, <<>>)), tracked, p, rid, sh, FALSE)
        t2 == Push([t1 EXCEPT !.pos = p + 1], Frame("aref", rid, 0, 0, <<>>))
    IN Container(t2, FALSE, p, sh, kind, n, p + 1)

\* Is the value of the open node id already in place for the default Go data
\* model, where references collapse into what they refer to? True for open
\* containers and for references leading straight to one.
RECURSIVE VisibleFrom(_, _)
VisibleFrom(s, i) ==
    IF i > Len(s.stk) THEN FALSE
    ELSE CASE s.stk[i].f \in {"arr", "key", "val"} -> TRUE
           [] s.stk[i].f \in {"refn", "weak", "aref", "obj"} -> VisibleFrom(s, i + 1)
           [] OTHER -> FALSE
FrameOf(s, id) == {i \in 1..Len(s.stk) : s.stk[i].f # "copy" /\ s.stk[i].n = id}

BackRef(s, tracked, p, sh, kind, v) ==
    LET o == v.n IN
    IF kind = "refp" /\ tracked /\ o = p + sh
    THEN \* a reference to itself and nothing else
         LET id == NewId(s)
             t == Track(AddNode(s, Node(kind, <<>>, <<id>>, <<>>)), TRUE, p, id, sh, FALSE)
         IN Loosen([t EXCEPT !.pos = v.nx, !.ret = id], "self")
    ELSE IF o >= p + sh \/ o \notin DOMAIN s.trk THEN Err(s, "untracked offset")
    ELSE LET tgt == s.trk[o]
             id == NewId(s)
             t == [Track(AddNode(s, Node(kind, <<>>, <<tgt>>, <<>>)), tracked, p, id, sh, FALSE)
                     EXCEPT !.pos = v.nx, !.ret = id]
             fr == FrameOf(s, tgt)
         IN IF tgt = 0 THEN Loosen([t EXCEPT !.nodes[id].c = <<id>>], "copied container")
            ELSE IF fr = {} THEN t
            ELSE LET i == CHOOSE i \in fr : TRUE IN
                 IF s.stk[i].f \in {"frz", "fclass"} THEN Loosen(t, "open frozen")
                 ELSE IF VisibleFrom(s, i) THEN t ELSE Loosen(t, "d")

ReadItem(B, lim, s, sh) ==
    LET p == s.pos IN
    IF p > lim THEN Err(s, "truncated")
    ELSE
    LET tracked == B[p] >= 128
        tag == B[p] % 128
    IN
    IF tag = T_PAD THEN
        [s EXCEPT !.pos = p + 1,
                  !.trk = IF tracked /\ ~InCopy(s) THEN Put(@, p + sh, 0) ELSE @]
    ELSE
    LET \* a frozen object's payload must start right here with REFN ARRAY
        fz == IF Len(s.stk) > 0 /\ Top(s).f = "frz"
                 /\ ~(p = Top(s).rp /\ p < lim /\ B[p] = T_REFN /\ B[p+1] = T_ARRAY)
              THEN Loosen(s, "frozen payload") ELSE s
        q == [fz EXCEPT !.tags = @ \cup {p}]
        v == ReadVarint(B, p + 1, lim)
        NoV == Err(s, "bad varint")
    IN
    CASE tag < 16 -> Leaf(q, tracked, p, sh, <<K_INT, 0>> \o DigitsOf(tag), p + 1)
      [] tag >= 16 /\ tag < 32 -> Leaf(q, tracked, p, sh, <<K_INT, 1>> \o DigitsOf(31 - tag), p + 1)
      [] tag = T_VARINT ->
           IF ~v.ok THEN NoV
           ELSE Leaf(q, tracked, p, sh,
                     <<IF Len(v.d) = 10 THEN K_UINT ELSE K_INT, 0>> \o v.d, v.nx)
      [] tag = T_ZIGZAG ->
           IF ~v.ok THEN NoV
           ELSE Leaf(q, tracked, p, sh,
                     <<K_INT, IF IsOdd(v.d) THEN 1 ELSE 0>> \o Half(v.d), v.nx)
      [] tag = T_FLOAT ->
           IF p + 4 > lim THEN Err(s, "truncated")
           ELSE Leaf(q, tracked, p, sh, <<K_F32>> \o SubSeq(B, p + 1, p + 4), p + 5)
      [] tag = T_DOUBLE ->
           IF p + 8 > lim THEN Err(s, "truncated")
           ELSE Leaf(q, tracked, p, sh, <<K_F64>> \o SubSeq(B, p + 1, p + 8), p + 9)
      [] tag = T_UNDEF  -> Leaf(q, tracked, p, sh, <<K_UNDEF>>, p + 1)
      [] tag = T_CUNDEF -> Leaf(q, tracked, p, sh, <<K_CUNDEF>>, p + 1)
      [] tag = T_FALSE  -> Leaf(q, tracked, p, sh, <<K_BOOL, 0>>, p + 1)
      [] tag = T_TRUE   -> Leaf(q, tracked, p, sh, <<K_BOOL, 1>>, p + 1)
      [] tag \in {T_BINARY, T_UTF8} ->
           IF ~v.ok THEN NoV
           ELSE IF v.n > lim - v.nx + 1 THEN Err(s, "truncated")
           ELSE Leaf(q, tracked, p, sh,
                     <<IF tag = T_UTF8 THEN K_STR ELSE K_BIN>>
                       \o SubSeq(B, v.nx, v.nx + v.n - 1), v.nx + v.n)
      [] tag >= 96 ->
           IF p + (tag - 96) > lim THEN Err(s, "truncated")
           ELSE Leaf(q, tracked, p, sh,
                     <<K_BIN>> \o SubSeq(B, p + 1, p + tag - 96), p + tag - 96 + 1)
      [] tag = T_ARRAY ->
           IF ~v.ok THEN NoV
           ELSE IF v.n > lim - v.nx + 1 THEN Err(s, "truncated")
           ELSE Container(q, tracked, p, sh, "arr", v.n, v.nx)
      [] tag = T_HASH ->
           IF ~v.ok THEN NoV
           ELSE IF 2 * v.n > lim - v.nx + 1 THEN Err(s, "truncated")
           ELSE Container(q, tracked, p, sh, "hash", v.n, v.nx)
      [] tag >= 64 /\ tag < 80 -> RefContainer(q, tracked, p, sh, "arr", tag - 64)
      [] tag >= 80 /\ tag < 96 -> RefContainer(q, tracked, p, sh, "hash", tag - 80)
      [] tag = T_REFN   -> Open(q, tracked, p, sh, "refn", "refn", p + 1)
      [] tag = T_WEAKEN -> Open(q, tracked, p, sh, "weak", "weak", p + 1)
      [] tag = T_OBJECT -> Open(q, tracked, p, sh, "obj", "class", p + 1)
      [] tag = T_FREEZE -> Open(q, tracked, p, sh, "frz", "fclass", p + 1)
      [] tag = T_REGEXP -> Open(q, tracked, p, sh, "re", "re1", p + 1)
      [] tag \in {T_OBJECTV, T_FREEZEV} ->
           IF ~v.ok THEN NoV
           ELSE LET known == v.n \in DOMAIN s.cls
                    t == IF tag = T_OBJECTV
                         THEN Open(q, tracked, p, sh, "obj", "obj", v.nx)
                         ELSE Open(q, tracked, p, sh, "frz", "frz", v.nx)
                    u == [t EXCEPT !.nodes[NewId(s)].a = IF known THEN s.cls[v.n][1] ELSE <<>>,
                                   !.nodes[NewId(s)].kk = IF known THEN <<s.cls[v.n][2]>> ELSE <<>>,
                                   !.stk[Len(t.stk)].rp = v.nx]
                IN IF known THEN u ELSE Loosen(u, "class offset")
      [] tag \in {T_REFP, T_ALIAS} ->
           IF ~v.ok THEN NoV
           ELSE BackRef(q, tracked, p, sh, IF tag = T_REFP THEN "refp" ELSE "alias", v)
      [] tag = T_COPY ->
           IF ~v.ok THEN NoV
           ELSE IF InCopy(s) THEN Err(s, "nested copy")
           ELSE LET tp == v.n - sh IN
                IF v.n >= p + sh THEN Err(s, "copy forward")
                ELSE IF tp < 1 \/ tp \notin s.tags
                THEN [Loosen(s, "copy target") EXCEPT !.st = "done", !.ret = 0]
                ELSE LET t == Push([q EXCEPT !.pos = tp, !.ncopy = @ + 1], Frame("copy", 0, 0, v.nx, <<>>))
                     IN IF tracked THEN Loosen(t, "tracked copy") ELSE t
      [] tag = T_LDOUBLE /\ s.ld ->
           IF p + 16 > lim THEN Err(s, "truncated")
           ELSE Leaf(q, tracked, p, sh, <<K_LD>> \o SubSeq(B, p + 1, p + 16), p + 17)
      [] tag \in {T_LDOUBLE, T_EXTEND} -> Err(s, "tag not supported here")
      [] OTHER -> Err(s, "unknown tag")

\* Where a string is expected: a string tag, or a COPY of one.
ReadString(B, lim, s, sh) ==
    LET p == s.pos IN
    IF p > lim THEN Err(s, "truncated")
    ELSE
    LET tag == B[p] % 128
        inS == Top(s).f = "scopy"
        q == [s EXCEPT !.tags = @ \cup {p},
                       !.trk = IF B[p] >= 128 /\ ~InCopy(s) THEN Put(@, p + sh, 0) ELSE @]
        v == ReadVarint(B, p + 1, lim)
        \* the string starts at a and has n bytes
        Got(a, n) ==
            LET str == SubSeq(B, a, a + n - 1)
                kd == IF tag = T_UTF8 THEN 1 ELSE 0 IN
            IF inS THEN DeliverString([Pop(q) EXCEPT !.pos = Top(s).rp], str, kd, p, sh, TRUE)
            ELSE DeliverString([q EXCEPT !.pos = a + n], str, kd, p, sh, FALSE)
    IN
    CASE tag = T_PAD -> [s EXCEPT !.pos = p + 1, !.trk = IF B[p] >= 128 /\ ~InCopy(s) THEN Put(@, p + sh, 0) ELSE @]
      [] tag \in {T_BINARY, T_UTF8} ->
           IF ~v.ok THEN Err(s, "bad varint")
           ELSE IF v.n > lim - v.nx + 1 THEN Err(s, "truncated")
           ELSE Got(v.nx, v.n)
      [] tag >= 96 ->
           IF p + (tag - 96) > lim THEN Err(s, "truncated")
           ELSE Got(p + 1, tag - 96)
      [] tag = T_COPY ->
           IF ~v.ok THEN Err(s, "bad varint")
           ELSE IF inS THEN Err(s, "nested copy")
           ELSE LET tp == v.n - sh IN
                IF v.n >= p + sh THEN Err(s, "copy forward")
                ELSE IF tp < 1 \/ tp \notin s.tags
                THEN [Loosen(s, "copy target") EXCEPT !.st = "done", !.ret = 0]
                ELSE LET t == Push([q EXCEPT !.pos = tp, !.ncopy = @ + 1], Frame("scopy", 0, 0, v.nx, <<>>))
                     IN IF InCopy(s) /\ Top(s).f \in {"re1", "re2"}
                        THEN Loosen(t, "copied regexp copy") ELSE t
      [] OTHER -> Err(s, "string expected")

\* ---- the machine ---------------------------------------------------------
Step(B, lim, s, sh) ==
    IF s.ret # 0 THEN Deliver(s)
    ELSE IF WantsString(s) THEN ReadString(B, lim, s, sh)
    ELSE ReadItem(B, lim, s, sh)

\* long documents are read some steps at a time
RECURSIVE StepsN(_, _, _, _, _)
StepsN(n, B, lim, s, sh) ==
    IF n = 0 \/ s.st # "run" THEN s ELSE StepsN(n - 1, B, lim, Step(B, lim, s, sh), sh)
Steps(B, s, sh) == IF Len(B) <= 900 THEN Step(B, Len(B), s, sh) ELSE StepsN(64, B, Len(B), s, sh)

RECURSIVE RunFrom(_, _, _, _)
RunFrom(B, lim, s, sh) == IF s.st # "run" THEN s ELSE RunFrom(B, lim, Step(B, lim, s, sh), sh)
Run(B, sh) == RunFrom(B, Len(B), BodyInit, sh)

\* the root node of a finished body
Root(s) == s.ret

\* ---- invariants of the machine -------------------------------------------
\* Node ids referred to by the state exist, children precede or enclose, the
\* stack is as deep as the nodes still open, tracked offsets lie behind.
Sane(B, s, sh) ==
    /\ s.pos \in 1..(Len(B) + 1)
    /\ s.ret \in 0..Len(s.nodes)
    /\ \A o \in DOMAIN s.trk : s.trk[o] \in 0..Len(s.nodes) /\ o - sh \in 1..Len(B)
    /\ \A i \in 1..Len(s.stk) :
         /\ s.stk[i].f \notin {"copy", "scopy"} => s.stk[i].n \in 1..Len(s.nodes)
         /\ s.stk[i].f \in {"arr", "key", "val"} => s.stk[i].left > 0
    /\ \A n \in 1..Len(s.nodes) :
         \A j \in 1..Len(s.nodes[n].c) : s.nodes[n].c[j] \in 0..Len(s.nodes)
    /\ Cardinality({i \in 1..Len(s.stk) : s.stk[i].f = "copy"}) <= 1
=============================================================================
