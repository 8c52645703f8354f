#!/bin/bash
# Builds the driver once so that the checks only relink it.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
import check
for v in ("", "-race", "-clibs"):
    try:
        check.build(v)
    except check.CheckError as e:
        print("variant %r: %s" % (v, e))
        if v == "":
            sys.exit(1)
P
