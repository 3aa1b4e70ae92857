#!/usr/bin/env python3
"""mkbug.py FILE...: each FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo_py= | demo_cpp=, srcs=)].
Writes /verif/seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh and its files, meta.json)."""
import json, os, subprocess, sys, tempfile, shutil

PYDEMO = """#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/_build/py:/repo PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/gfft/venv/bin/python "$D/demo.py"
"""
CPPDEMO = """#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -DUSE_BOOST -DHAS_BOOST_FILESYSTEM -DFLENS_FIRST_INDEX=0 -I/repo/src -I/repo/src/nrlib "$D/demo.cpp" %s \\
  -o "$T/demo" -lboost_filesystem -lboost_system -lfftw3 -lfftw3f -lopenblas -llapacke -lpthread || exit 2
cd "$T" && timeout 200 ./demo
"""
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    for b in ns["BUGS"]:
        d = "/verif/seeded/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        t = tempfile.mkdtemp(prefix="mkbug-")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
            for f, old, new in b["edits"]:
                p = t + "/r/" + f
                s = open(p, encoding="latin1", newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    sys.exit("%s: %d matches in %s for %r" % (b["id"], s.count(old), f, old[:80]))
                open(p, "w", encoding="latin1", newline="").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", t + "/r", "diff"])
            open(d + "/patch.diff", "wb").write(diff)
        finally:
            shutil.rmtree(t)
        if "demo_py" in b:
            open(d + "/demo.py", "w").write(b["demo_py"])
            open(d + "/demo.sh", "w").write(PYDEMO)
        else:
            open(d + "/demo.cpp", "w").write(b["demo_cpp"])
            open(d + "/demo.sh", "w").write(CPPDEMO % " ".join("/repo/src/" + s for s in b.get("srcs", [])))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("wrote", b["id"])
