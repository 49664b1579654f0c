"""Helper for writing planted bugs: mk(id, property, needs, breaks, [(file, old, new)], demo_c)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
I="-I/repo/c3 -I/repo/include"
for d in /repo/c3/lib_*; do I="$I -I$d"; done
gcc -w -Werror=implicit-function-declaration -g @CF@ -o "$T/demo" "$D/demo.c" $I -L/repo/_build/c3 -lc3 -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all -lm || exit 99
cd "$T" && LD_LIBRARY_PATH=/repo/_build/c3 timeout 240 @RUN@ ./demo
'''


def mk(sid, prop, needs, breaks, edits, demo_c, cflags="", files=None, run=""):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@CF@", cflags).replace("@RUN@ ", run + " " if run else ""))
    open(os.path.join(d, "demo.c"), "w").write(demo_c)
    for k, v in (files or {}).items():
        open(os.path.join(d, k), "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
