#!/usr/bin/env python3
"""Decides one property: runs the real code on generated cases, records what it
did, and has TLC judge the records against the TLA+ specification.

    check.py PROPERTY [TIER]     VERIF_SEED, VERIF_TIER from the environment

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check
itself failed."""
import json, os, re, shutil, subprocess, sys, time, hashlib, threading, resource
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
import stages

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off",
             GOCACHE=os.path.join(BUILD, "gocache"))
    e.setdefault("HOME", "/root")
    return e


def build(variant=""):
    """Compile the driver against /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "srlconf" + variant)
    cmd = ["go", "build", "-o", out]
    if variant == "-race":
        cmd.append("-race")
    if variant == "-clibs":
        cmd += ["-tags", "clibs"]
    p = subprocess.run(cmd + ["."], cwd=os.path.join(VERIF, "driver"), env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CheckError("the driver does not build:\n" + p.stdout)
    return out


def limits(race):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


def run_driver(binary, args, timeout):
    """Returns (return code or None on timeout, output)."""
    e = goenv()
    race = binary.endswith("-race")
    if race:
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    try:
        p = subprocess.run([binary] + args, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=limits(race))
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")


def tlc(module, trace, work, workers, timeout, cfg=None, heap="3g", extra=None):
    """Run TLC; returns (output, states found, states generated)."""
    md = os.path.join(work, "tlc-%s-%d" % (module, threading.get_ident()))
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    e = dict(os.environ, TRACE=trace or "")
    e.update(extra or {})
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + md,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg", module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"")
        out = out.decode("utf-8", "replace") if isinstance(out, bytes) else out
        out += "\nTIMEOUT"
    shutil.rmtree(md, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return out, int(m[2]) if m else 0, int(m[1]) if m else 0


VERDICT = re.compile(r'"R (\d+) (.*?)"\s*\n', re.S)


def judge(module, recfile, n, work, workers, timeout):
    """Verdicts by record number (1-based) from TLC."""
    out, states, trans = tlc(module, recfile, work, workers, timeout)
    v = {}
    for m in VERDICT.finditer(out + "\n"):
        k, s = int(m[1]), re.sub(r"\s+", " ", m[2])
        if k not in v or s.startswith("BAD"):
            v[k] = s
    return v, states, trans, out


def split_judge(module, lines, work, workers, timeout, depth=0):
    """Judge records; isolate ones that TLC cannot evaluate."""
    f = os.path.join(work, "part-%d-%d.ndjson" % (threading.get_ident(), depth))
    with open(f, "w") as w:
        w.write("\n".join(lines) + "\n")
    v, st, tr, out = judge(module, f, len(lines), work, workers, timeout)
    missing = [k for k in range(1, len(lines) + 1) if k not in v]
    if not missing:
        return v, st, tr
    if "TIMEOUT" in out[-20:]:
        raise CheckError("TLC timed out on " + module)
    if len(lines) == 1:
        tail = out[-1500:]
        if "Error:" not in out:
            raise CheckError("TLC gave no verdict:\n" + tail)
        m = re.search(r"Error: (.*?)(\n\n|\nError|$)", out, re.S)
        v[1] = "BAD no behaviour of the specification (%s)" % re.sub(r"\s+", " ", m[1])[:300]
        return v, st, tr
    if "Error:" not in out:
        raise CheckError("TLC stopped early on %s:\n%s" % (module, out[-1500:]))
    if depth > 40:
        raise CheckError("too many records that cannot be evaluated:\n" + out[-1500:])
    # bisect the unjudged ones
    half = (len(missing) + 1) // 2
    for part in (missing[:half], missing[half:]):
        if not part:
            continue
        v2, s2, t2 = split_judge(module, [lines[k - 1] for k in part], work, workers, timeout, depth + 1)
        st, tr = st + s2, tr + t2
        for i, k in enumerate(part):
            v[k] = v2[i + 1]
        if any(x.startswith("BAD no behaviour") for x in v2.values()) and len(missing) > 40:
            for k in missing:
                v.setdefault(k, "unjudged")
            break
    return v, st, tr


class Result:
    def __init__(self):
        self.bad, self.counts, self.samples = [], {}, []
        self.records = self.states = self.trans = 0
        self.notes = []


def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    found = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN property=(\S+) id=(\S+) (.*)", l)
            if m and m[1] == prop:
                found.append((m[2], m[3]))
    return found


def fingerprint(rec):
    """Identifies the input of a record, for the known-findings file."""
    x = {k: v for k, v in rec.items() if k not in ("ok", "err", "val", "note", "res")}
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def run_stage(prop, st, seed, tier, work, workers, deadline):
    """One generation of records and its judgement."""
    r = Result()
    t0 = time.time()
    if st.kind == "model":      # model checking of the specification itself
        out, s, t = tlc(st.module, None, work, workers, max(30, deadline - time.time()), cfg=st.cfg_for(tier))
        r.states, r.trans = s, t
        if "Model checking completed. No error has been found." not in out:
            raise CheckError("model %s: the specification fails its own properties:\n%s" % (st.module, out[-3000:]))
        r.counts["model " + st.module] = s
        return r
    tag = "%s-%d" % (st.name, seed)
    rec, cur = os.path.join(work, tag + ".ndjson"), os.path.join(work, tag + ".cur")
    binary = os.path.join(BUILD, "srlconf" + st.variant)
    args = [st.cmd, "-seed", str(seed), "-n", str(st.n(tier)), "-out", rec, "-cur", cur, "-tier", tier]
    if st.mode:
        args += ["-mode", st.mode]
    if st.generator:           # the specification generates the cases
        gen = os.path.join(work, tag + ".gen")
        out, s, t = tlc(st.generator, None, work, workers, 300, cfg=st.gencfg(tier),
                        extra={"SEED": str(seed), "GEN": gen})
        g = re.findall(r'"G (.*?)"\s*\n', out + "\n", re.S)
        if "No error has been found" not in out or not g:
            raise CheckError("generator %s:\n%s" % (st.generator, out[-3000:]))
        with open(gen, "w") as f:
            for x in g:
                f.write(re.sub(r"\s+", "", x).replace("<<", "[").replace(">>", "]") + "\n")
        r.states += s
        r.trans += t
        r.counts["behaviours from " + st.generator] = len(g)
        args += ["-in", gen]
    rc, out = run_driver(binary, args, st.timeout)
    died = None
    if rc != 0:
        case = open(cur).read().strip() if os.path.exists(cur) else ""
        broken = "panic:" in out and "Go/sereal." not in out and "DATA RACE" not in out
        if rc == 3 or not case or broken:  # the driver itself
            if rc == 66 or "DATA RACE" in out:
                died = ("data race", case)
            else:
                raise CheckError("driver %s failed (%s):\n%s" % (" ".join(args), rc, out[-3000:]))
        else:
            what = "hangs" if rc is None else "kills the process (%s)" % rc
            if "DATA RACE" in out:
                what = "data race"
            died = (what, case)
        r.bad.append({"verdict": "BAD the call " + died[0], "stage": st.name, "module": st.module,
                      "cmd": args, "variant": st.variant, "output": out[-6000:],
                      "record": json.loads(died[1]) if died[1] else None})
    lines = []
    if os.path.exists(rec):
        for l in open(rec):
            if l.endswith("\n"):
                lines.append(l.rstrip("\n"))
    r.records = len(lines)
    if not lines:
        if died:
            return r
        raise CheckError("no records from " + " ".join(args))
    v, s, t = split_judge(st.module, lines, work, workers, st.tlc_timeout)
    r.states += s
    r.trans += t
    for k in sorted(v):
        s = v[k]
        if s.startswith("HARNESS"):
            raise CheckError("record %d of %s: %s\n%s" % (k, " ".join(args), s, lines[k - 1][:2000]))
        cls = s.split(":")[0]
        if cls.startswith("loose"):
            cls = "loose"
        r.counts[st.name + ": " + cls] = r.counts.get(st.name + ": " + cls, 0) + 1
        if s.startswith("BAD"):
            r.bad.append({"verdict": s, "stage": st.name, "module": st.module, "cmd": args,
                          "variant": st.variant, "record": json.loads(lines[k - 1])})
    oks = [k for k in v if v[k].startswith("ok")]
    for k in (oks[:1] + oks[len(oks) // 2:len(oks) // 2 + 1]):
        r.samples.append({"stage": st.name, "verdict": v[k], "record": json.loads(lines[k - 1])
                          if len(lines[k - 1]) < 3000 else lines[k - 1][:3000]})
    if not died and not r.bad:
        for cls, least in st.need.items():
            got = sum(1 for x in v.values() if x.startswith(cls))
            if got < least * len(lines):
                raise CheckError("stage %s explored too little: %d of %d records are '%s'" % (st.name, got, len(lines), cls))
    os.remove(rec)
    return r


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = stages.PROPS[prop]
    budget = 800 if tier == "thorough" else 120
    work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    total = Result()
    rounds = 0
    try:
        for variant in sorted({s.variant for s in spec.stages if s.kind != "model"}):
            build(variant)
        par = min(3, len(spec.stages))
        workers = max(2, 8 // par)
        sd = seed
        while True:
            todo = [s for s in spec.stages if rounds == 0 or (s.kind != "model" and not s.once)]
            if not todo:
                break
            r0 = time.time()
            with ThreadPoolExecutor(par) as ex:
                fs = [ex.submit(run_stage, prop, s, sd, tier, work, workers, t0 + budget) for s in todo]
                errs = []
                for f in fs:
                    try:
                        r = f.result()
                    except CheckError as x:
                        errs.append(x)
                        continue
                    total.bad += r.bad
                    total.records += r.records
                    total.states += r.states
                    total.trans += r.trans
                    for k, n in r.counts.items():
                        total.counts[k] = total.counts.get(k, 0) + n
                    if rounds == 0:
                        total.samples += r.samples
            if errs and not total.bad:
                raise errs[0]
            rounds += 1
            sd += 1000003
            took = time.time() - r0
            if tier != "thorough" or total.bad or time.time() - t0 + 1.3 * took > budget:
                break
    except CheckError as x:
        print("CHECK FAILED property=%s: %s" % (prop, x))
        sys.exit(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(prop)
    seen, real = set(), []
    for b in total.bad:
        fp = fingerprint(b["record"]) if b["record"] else "none"
        hit = [k for k in known if k[0] == fp]
        if hit:
            seen.add(hit[0])
        else:
            b["fingerprint"] = fp
            real.append(b)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    status = 0
    if real:
        status = 1
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        # the smallest failing record is the one to look at
        real.sort(key=lambda b: len(json.dumps(b["record"])))
        path = os.path.join(d, "%s-%d.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "violations": real[:20]}, f)
        print("verdict: %s" % real[0]["verdict"][:600])
        print("%d violating records; replay with bin/replay.py %s" % (len(real), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.level,
          "coverage": {"evaluations": total.records,
                       "distinct_nontrivial": sum(n for k, n in total.counts.items()
                                                  if not re.search(r": (loose|ok nohead)", k) and not k.startswith(("model ", "behaviours"))),
                       "rule": spec.rule,
                       "states": total.states, "transitions": total.trans,
                       "traces_validated_against_impl": total.records,
                       "verdicts": total.counts, "rounds": rounds, "samples": total.samples[:6]},
          "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property %s: %d records, %d states, %.1f s: %s" % (prop, total.records, total.states, time.time() - t0,
          json.dumps(total.counts, sort_keys=True)))
    sys.exit(status)


if __name__ == "__main__":
    main()
