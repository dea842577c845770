"""Writes /verif/seeded/<id>/ from a description of a planted change (development helper; no check reads it)."""
import json, os, subprocess, shutil, stat, tempfile
REPO, OUT = "/repo", "/verif/seeded"

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after it was built; 0 = the property holds, nonzero = it is broken
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
%(build)s || exit 3
cd "$T" || exit 3
%(run)s
'''
LIB = ('g++ -std=c++14 -O1 -I lib/include -I _build/lib/include -I "$H" "$H/demo.cpp" '
       '_build/output/libcuttlefish.a -lfreeimage -pthread -o "$T/demo"')
SRC = ('g++ -std=c++14 -O1 -g -msse4.1 -mf16c -fsanitize=%s -fno-sanitize-recover=all -DNDEBUG -w -I lib/include '
       '-I _build/lib/include -I lib/src -I lib/glm "$H/demo.cpp" lib/src/*.cpp -lfreeimage '
       '-pthread -o "$T/demo"')


def bug(id, prop, edits, needs, breaks, cpp=None, sh=None, build=None, run=None, san=None):
    base = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"],
                          capture_output=True, text=True).stdout.strip()
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        src = open(os.path.join(REPO, f)).read()
        txt = src
        for old, new in es:
            if txt.count(old) != 1:
                raise SystemExit("%s: %d matches in %s for %r" % (id, txt.count(old), f, old))
            txt = txt.replace(old, new)
        with tempfile.TemporaryDirectory() as t:
            for side, c in (("a", src), ("b", txt)):
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p))
                open(p, "w").write(c)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t,
                               capture_output=True, text=True)
        patch += r.stdout
        # the removed lines have to be original ones
        orig = subprocess.run(["git", "-C", REPO, "show", base + ":" + f], capture_output=True, text=True).stdout.split("\n")
        for l in r.stdout.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                print("  %s: WARNING removed line not in the original: %s" % (id, l))
    open(d + "/patch.diff", "w").write(patch)
    if cpp is not None:
        open(d + "/demo.cpp", "w").write(cpp)
        build = build or (SRC % san if san else LIB)
        run = run or 'TSAN_OPTIONS=halt_on_error=1 timeout 150 "$T/demo"'
    text = sh if sh is not None else DEMO_SH % {"build": build or "true", "run": run}
    open(d + "/demo.sh", "w").write(text)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
