"""What each check runs: which driver command makes the records, which TLA+
module judges them, how many."""

COMMON = ["TLC evaluates the TLA+ modules correctly",
          "the driver's recording of arguments and results (driver/*.go) is faithful",
          "the Go toolchain and the compression libraries' reference decoders are correct"]


class Stage:
    def __init__(self, name, cmd=None, module=None, quick=1000, thorough=None, mode="", variant="",
                 kind="trace", generator=None, gencfg=None, timeout=240, tlc_timeout=500, once=False,
                 need=None, cfg=None):
        self.name, self.cmd, self.module = name, cmd, module
        self.quick, self.thorough = quick, thorough or 5 * quick
        self.mode, self.variant, self.kind = mode, variant, kind
        self.generator, self._gencfg, self._cfg = generator, gencfg, cfg
        self.timeout, self.tlc_timeout, self.once = timeout, tlc_timeout, once
        self.need = need or {}

    def n(self, tier):
        return self.thorough if tier == "thorough" else self.quick

    def gencfg(self, tier):
        c = self._gencfg or self.generator
        return c + "_thorough" if tier == "thorough" else c

    def cfg_for(self, tier):
        c = self._cfg or self.module
        import os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", c + "_thorough.cfg")
        return c + "_thorough" if tier == "thorough" and os.path.exists(p) else c


def model(module, cfg=None):
    return Stage("model " + (cfg or module), module=module, kind="model", once=True, cfg=cfg)


class Prop:
    def __init__(self, stages, rule, technique, note, level="model_checking", assumptions=None):
        self.stages, self.rule, self.technique, self.note, self.level = stages, rule, technique, note, level
        self.assumptions = COMMON + (assumptions or [])


PROPS = {}

PROPS["C03"] = Prop(
    [Stage("valid", "decode", "T_Doc", 8000, mode="valid", need={"ok": .7}),
     Stage("bodies", "bodies", "T_Doc", 4800, mode="tags"),
     Stage("far", "decode", "T_Doc", 8, mode="far", thorough=40),
     Stage("vast", "decode", "T_Doc", 32, mode="vast", thorough=300)],
    "random documents over the whole tag grammar (every version, padding, track flags, non-minimal varints, COPY, "
    "ALIAS, cycles) and exhaustive small bodies, decoded in all modes; non-trivial: the specification gives it a meaning",
    "TLA+ pushdown machine for Sereal bodies; TLC trace validation of recorded decoder calls",
    "every recorded call of the real decoder is checked step by step against SrlBody/SrlGoView by TLC; bounded by the generated documents")

PROPS["C04"] = Prop(
    [Stage("bad", "decode", "T_Doc", 9600, mode="bad", need={"inv": .3}),
     Stage("bodies", "bodies", "T_Doc", 4800, mode="tags"),
     Stage("typed", "into", "T_Typed", 6400, mode="bad", need={"inv": .3})],
    "every truncation of short documents, mutations of valid ones, exhaustive small bodies; non-trivial: not loose",
    "TLA+ pushdown machine for Sereal bodies; TLC trace validation of recorded decoder calls",
    "a document the machine gets stuck on must have been rejected by the real decoder; bounded by the generated documents")

ENC = "random Go values (%s) encoded under random options by every encoder version; each document is parsed by the " \
      "specification alone and walked against the value; non-trivial: the encoder accepted the value"
ENCT = "TLA+ body machine plus encoding relation between Go value graphs and document nodes; TLC trace validation"
ENCN = "%s; bounded by the generated values"

PROPS["C01"] = Prop(
    [Stage("typed", "encode", "T_Enc", 6400, mode="typed", need={"ok": .8}),
     Stage("graph", "encode", "T_Enc", 2400, mode="graph", need={"ok": .8})],
    ENC % "randomly built types: all kinds, named, nested, structs with tags", ENCT,
    ENCN % "the decoded value (typed and generic) is walked against the original by the specification")

PROPS["C02"] = Prop(
    [Stage("graph", "encode", "T_Enc", 5600, mode="graph", need={"ok": .8}),
     Stage("bad", "encode", "T_Enc", 2400, mode="bad", need={"ok": .3, "inv": .1}),
     Stage("typed", "encode", "T_Enc", 2400, mode="typed"),
     Stage("far", "encode", "T_Enc", 12, mode="far", thorough=60),
     Stage("vast", "encode", "T_Enc", 12, mode="vast", thorough=100)],
    ENC % "pointer graphs, all types, unencodable parts anywhere", ENCT,
    ENCN % "documents are read by SrlBody, not by the Go decoder")

PROPS["C07"] = Prop(
    [Stage("sizes", "encode", "T_Enc", 4000, mode="big"),
     Stage("values", "encode", "T_Enc", 4000, mode="comp"),
     Stage("huge", "encode", "T_Enc", 12, mode="huge", thorough=100),
     Stage("zstd", "encode", "T_Enc", 800, mode="comp", variant="-clibs")],
    ENC % "all, ones of a size near the threshold, and ones of up to 2 MB", ENCT,
    ENCN % "the blob is inflated by the compression libraries directly, framing and threshold are checked by SrlEnvelope")

PROPS["C08"] = Prop(
    [Stage("head", "encode", "T_Enc", 6400, mode="head", need={"ok": .7}),
     Stage("user data", "decode", "T_Doc", 4000, mode="head")],
    ENC % "header and body, both with shared references" + "; generated documents with user data, damaged bodies", ENCT,
    ENCN % "the header is parsed by SrlBody on its own and compared with the header value")

PROPS["C17"] = Prop(
    [Stage("deep", "encode", "T_Enc", 6400, mode="deep", need={"ok": .3, "inv": .1}),
     Stage("endless", "encode", "T_Enc", 1600, mode="endless", need={"inv": .9}),
     Stage("nested", "encode", "T_Enc", 24, mode="vast", thorough=140),
     Stage("towers", "nest", "T_Nest", 16, thorough=160, need={"ok": .3})],
    ENC % "nested to around the limit, values containing themselves", ENCT,
    ENCN % "the depth is computed by the specification on the recorded value")

PROPS["C21"] = Prop(
    [Stage("keys", "encode", "T_Enc", 6400, mode="keys", need={"ok": .8}),
     Stage("merge", "merge", "T_Merge", 4500, mode="keys", need={"ok": .7}),
     Stage("rows", "merge", "T_Merge", 12, mode="rows", thorough=100, need={"ok": .9}),
     Stage("far", "encode", "T_Enc", 14, mode="far", thorough=100),
     Stage("vast", "encode", "T_Enc", 20, mode="vast", thorough=140)],
    ENC % "a few strings used again and again as keys, classes, strings and binaries", ENCT,
    ENCN % "every key and class of the document is classified as first use or copy by the body machine")

PROPS["C06"] = Prop(
    [Stage("headers", "headers", "T_Doc", 8000),
     Stage("documents", "decode", "T_Doc", 2400, mode="valid")],
    "all 256 version/type bytes under four magics, header sizes around the document's end, all three unmarshal calls and "
    "LooksLikeSereal; non-trivial: the specification decides acceptance or the set of errors",
    "TLA+ envelope specification; TLC trace validation of recorded calls",
    "the exhaustive version/type/magic table is replayed on every run, with random header suffixes and parts")

PROPS["C16"] = Prop(
    [Stage("trip", "perl", "T_Perl", 8000, need={"ok": .8}),
     Stage("vast", "perl", "T_Perl", 32, mode="vast", thorough=150)],
    "random documents decoded and encoded Perl-compatibly; non-trivial: the document has a meaning in Perl terms",
    "TLA+ body machine run on both documents and a walk relating the two graphs; TLC trace validation",
    "both documents are read by SrlBody alone; bounded by the generated documents")

PROPS["C20"] = Prop(
    [Stage("decompress", "decompress", "T_Decomp", 9600, need={"ok": .6}),
     Stage("zstd", "decompress", "T_Decomp", 2400, variant="-clibs")],
    "compressed and plain documents, intact, damaged and cut, into destinations of nil, short, exact, large and odd "
    "length and capacity; non-trivial: the specification gives the exact result or demands an error",
    "TLA+ envelope specification; TLC trace validation of recorded calls",
    "the expected bytes are computed by the specification from an independent inflation")

MRG = "every short sequence of calls (valid documents, ones that fit flat mode, ones broken late, mutated and repeated " \
      "ones, finish) enumerated by TLC from G_Merge, filled with random documents under random options%s; non-trivial: every verdict but loose"
MRGT = "TLA+ merger state machine and life-cycle model; TLC enumerates the histories and validates the recorded ones"
PROPS["C09"] = Prop(
    [Stage("merge", "merge", "T_Merge", 7200, generator="G_Merge", need={"ok": .7}),
     Stage("far", "merge", "T_Merge", 14, mode="far", thorough=60),
     Stage("vast", "merge", "T_Merge", 28, mode="vast", thorough=240)],
    MRG % ", then random longer histories", MRGT,
    "the finished document is parsed by SrlBody and walked in lockstep with the graphs of the appended documents; bounded by the generated histories")
PROPS["C10"] = Prop(
    [Stage("failures", "merge", "T_Merge", 7200, mode="fail", generator="G_Merge", need={"ok": .6})],
    MRG % ", then longer histories with many failures", MRGT,
    "after every history the finished document equals the one of a merger that was only given the accepted documents, and is walked as for C09")
PROPS["C11"] = Prop(
    [Stage("life", "merge", "T_Merge", 7200, mode="life", generator="G_Merge", need={"ok": .7})],
    MRG % ", then histories finishing again and again with thresholds around the length", MRGT,
    "the life-cycle state (open, finished with its result) is part of the specification's state; thresholds are computed from the uncompressed result")

INTO = "random destination types (all kinds, named, nested, structs with tags and hidden fields), prefilled or empty, and random " \
       "documents that mostly fit them: every integer, float and string form, references, blessings, COPY, unknown and " \
       "lower-case keys, misfits, damage%s; non-trivial: the specification gives the exact content or demands an error"
INTOT = "TLA+ body machine plus a TLA+ definition of typed decoding (type table, term of the destination before and after); TLC trace validation"
PROPS["C18"] = Prop(
    [Stage("into", "into", "T_Typed", 11200, need={"ok": .6, "inv": .03}),
     Stage("modes", "into", "T_Typed", 5600, mode="perl", need={"ok": .4})],
    INTO % "", INTOT,
    "the whole content of the destination, unexported fields included, is compared with SrlTyped!Fill; bounded by the generated types and documents")

PROPS["C19"] = Prop(
    [Stage("out", "encode", "T_Enc", 5600, mode="frozen", need={"ok": .8}),
     Stage("in", "into", "T_Typed", 6400, mode="frozen", need={"ok": .5})],
    INTO % ", frozen objects everywhere, registered and unregistered classes, methods that refuse", INTOT,
    "what was handed to the unmarshal methods is recorded and compared, in order, with the calls the specification makes")

PROPS["C15"] = Prop(
    [Stage("encode", "encode", "T_Enc", 4000, mode="share", need={"ok": .9}),
     Stage("decode", "decode", "T_Doc", 4000, mode="share", need={"ok": .6}),
     Stage("vast", "decode", "T_Doc", 24, mode="vast", thorough=200),
     Stage("typed", "into", "T_Typed", 3200, mode="share", need={"ok": .4}),
     Stage("perl", "perl", "T_Perl", 2400, mode="share", need={"ok": .7})],
    "pointer graphs with cycles and with different things at one address (first fields and elements, prefixes of slices and "
    "strings, empty types, named types of one map); documents full of back references, decoded into interfaces, typed "
    "destinations and Perl structures; non-trivial: the specification decides",
    "TLA+ body machine, value graph relation and typed decoding with identities; TLC trace validation",
    "identities of maps, pointers, slices and strings are recorded on both sides and must correspond one to one; bounded by the generated graphs")

PROPS["C05"] = Prop(
    [model("SrlAlloc"),
     Stage("cost", "safe", "T_Safe", 19200, need={"ok": .2, "inv": .2}),
     Stage("deep", "safe", "T_Safe", 110, mode="deep", thorough=900, timeout=300, need={"ok": .2, "inv": .2})],
    "bytes of every sort (garbage, mutated and random documents, sizes claimed up to 2^64, containers that each claim all that is "
    "left, highly compressed data, 18 kinds of nesting up to eight million levels) given to all decoding entry points, with "
    "destinations of 36 types, some of them unusable; every record counts",
    "TLA+ resource model checked by TLC (SrlAlloc) and TLC validation of the recorded cost and outcome of every call (T_Safe)",
    "a panic, the end of the process or a call that does not return is caught by the driver's caller; memory is bounded per byte there is; bounded by the generated bytes")

HIST = "every sequence of a few operations enumerated by TLC from G_Hist, filled with random values, documents and configurations, then " \
       "random longer ones; %s; every record with an operation counts"
HISTT = "TLA+ history model checked by TLC (SrlHist), TLC-generated histories, TLC trace validation"
PROPS["C12"] = Prop(
    [model("SrlHist"),
     Stage("histories", "hist", "T_Hist", 5600, mode="reuse", generator="G_Hist", need={"ok": .9}),
     Stage("encoders", "encode", "T_Enc", 2200, mode="reuse", need={"ok": .5, "inv": .1}),
     Stage("decoders", "decode", "T_Doc", 4000, mode="reuse", need={"ok": .2, "inv": .2}),
     Stage("typed", "into", "T_Typed", 3200, mode="reuse", need={"ok": .4})],
    HIST % "thousands of mixed calls, many failing, on the same few objects, each judged as a call of its own", HISTT,
    "the outcome of every call in a history equals that of the same call with objects of its own, and the calls on reused objects are "
    "held to the same specifications as single ones; bounded by the generated histories")

PROPS["C14"] = Prop(
    [Stage("histories", "hist", "T_Hist", 6400, mode="alias", generator="G_Hist", gencfg="G_Alias", need={"ok": .9}),
     Stage("decode", "decode", "T_Doc", 4000, mode="valid", need={"ok": .6}),
     Stage("typed", "into", "T_Typed", 2400, need={"ok": .5}),
     Stage("encode", "encode", "T_Enc", 2400, mode="graph", need={"ok": .6}),
     Stage("decompress", "decompress", "T_Decomp", 3200),
     Stage("merge", "merge", "T_Merge", 2400, mode="life")],
    HIST % "buffers overwritten and values changed in between", HISTT,
    "digests of everything the caller has are recorded after every operation and compared with the state of the specification; "
    "bounded by the generated histories")

PROPS["C13"] = Prop(
    [model("SrlConc"),
     Stage("together", "conc", "T_Conc", 1500, variant="-race", timeout=400, need={"ok": .9})],
    "rounds of two to eight goroutines that start together, each making a few calls with package-level functions or objects of their "
    "own, many on the same values, documents, and struct types never seen before; every record counts",
    "TLA+ model of what calls share, checked by TLC (SrlConc); TLC validation of recorded concurrent outcomes (T_Conc) from a build "
    "with Go's race detector",
    "SrlConc is checked over all interleavings; the real code is run under the race detector, bounded by the schedules that occur")

PROPS["C22"] = Prop(
    [Stage("dest", "dest", "T_Doc", 8000, need={"inv": .5})],
    "documents good and damaged, decoded with values in place of destinations (of every kind, nil pointers) for the body, the "
    "header or both, through every call; non-trivial: the specification says which error is due",
    "TLA+ envelope specification and body machine; TLC trace validation of recorded calls",
    "the order of header, body and their destinations is part of the specification's transitions; bounded by the generated documents")
