#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file, old, new)],
demo (C++ source), optional libs. Writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exit 0 when the property holds on this input, nonzero otherwise.
set -e
export PATH=/usr/local/bin:/usr/bin:/bin
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
clang++-17 -std=c++20 -stdlib=libc++ -U_FORTIFY_SOURCE -w -O1 -iquote . -o "$tmp/demo" "$here/demo.cc" %s -fuse-ld=lld -lm
cd "$tmp"
timeout 60 ./demo
'''
LIBS = "best/log/internal/crash.cc best/memory/allocator.cc best/iter/bounds.cc best/text/format.cc best/io/ioerr.cc"


def make(id, property, needs, breaks, edits, demo, libs=LIBS):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkseed")
    r = os.path.join(t, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for f, a, b in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    # Only lines of the original repository may change.
    root = subprocess.check_output(["git", "-C", r, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    f, n = None, 0
    for l in subprocess.check_output(["git", "-C", r, "diff", "-U0"], text=True).splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split("-")[1].split(" ")[0].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            who = subprocess.check_output(["git", "-C", r, "blame", "-l", "-s", "-L%d,%d" % (n, n), "HEAD", "--", f], text=True)
            if not root.startswith(who.lstrip("^").split(" ")[0][:30]):
                print("NOT ORIGINAL", id, f, n, l)
            n += 1
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(demo.lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % libs)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), {"make": make, "LIBS": LIBS})
