#!/usr/bin/env python3
"""seedtest.py ID...: confirms planted bugs in a scratch copy of /repo and says
whether the property's check catches them (runs checks with VERIF_REPO set)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stable(repo):
    """Builds and runs every test against the copy; returns failing baseline tests."""
    env = dict(os.environ, PATH="/usr/local/bin:/usr/bin:/bin")
    s = open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + repo)
    d = tempfile.mkdtemp(prefix="vpcopy")
    for f in os.listdir("/opt/vp"):
        p = os.path.join("/opt/vp", f)
        if os.path.isfile(p):
            t = open(p, errors="replace").read().replace("/opt/vp", d).replace("/repo", repo)
            open(os.path.join(d, f), "w").write(t)
    out = os.path.join(d, "out.json")
    r = sh(["bash", os.path.join(d, "test.sh"), out], env=env, cwd=repo)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        got = set(json.load(open(out))["passed"])
    except Exception:
        got = set()
    shutil.rmtree(d)
    return sorted(base - got), r.stdout


for sid in sys.argv[1:]:
    sd = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed")
    repo = os.path.join(tmp, "repo")
    sh(["cp", "-a", "/repo", repo])
    demo = os.path.join(tmp, "demo")
    shutil.copytree(sd, demo)
    clean = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo)
    a = sh(["git", "-C", repo, "apply", os.path.join(sd, "patch.diff")])
    if a.returncode:
        print(sid, "PATCH DOES NOT APPLY", a.stdout); continue
    missing, log = stable(repo)
    bad = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo)
    r = sh(["python3", os.path.join(V, "check.py"), meta["property"]], cwd=V,
           env=dict(os.environ, VERIF_REPO=repo))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
    print("%s [%s] demo clean=%d patched=%d  tests missing=%d  check rc=%d %s" % (
        sid, meta["property"], clean.returncode, bad.returncode, len(missing), r.returncode,
        "CAUGHT" if r.returncode == 1 and v else "MISSED"), flush=True)
    if clean.returncode: print(clean.stdout[-1500:])
    if not bad.returncode: print(bad.stdout[-1500:])
    if " error: " in bad.stdout: print("   DEMO DOES NOT COMPILE", bad.stdout[-800:])
    if missing: print("   missing:", missing[:5], log[-1500:] if len(missing) > 100 else "")
    if not v: print(r.stdout[-1500:])
    shutil.rmtree(tmp)
