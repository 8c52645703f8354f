#!/usr/bin/env python3
"""replay.py FILE: run the violating records of a replay file again on the real
code and judge them again."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
f = json.load(open(sys.argv[1]))
work = os.path.join(check.BUILD, "work", "replay-%d" % os.getpid())
os.makedirs(work, exist_ok=True)
for b in f["violations"][: int(sys.argv[2]) if len(sys.argv) > 2 else 5]:
    binary = check.build(b["variant"])
    print("first time:", b["verdict"][:1000])
    if not b["record"]:
        print(b["output"])
        continue
    i, o = os.path.join(work, "in"), os.path.join(work, "out")
    with open(i, "w") as w:
        w.write(json.dumps(b["record"]) + "\n")
    rc, out = check.run_driver(binary, ["redo", "-mode", b["cmd"][0], "-in", i, "-out", o], 120)
    if rc != 0:
        print("again: driver ended with", rc, out[-1500:])
        continue
    v, _, _ = check.split_judge(b["module"], open(o).read().splitlines(), work, 4, 300)
    print("again:     ", v[1][:1000])
    print("record:    ", open(o).read()[:3000])
