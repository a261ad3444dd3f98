"""Shared machinery: build drivers against /repo, run them, validate what they
observed against the TLA+ specifications with TLC, model-check the
specifications, and report."""
import json, os, random, re, shutil, subprocess, sys, time, collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
os.environ["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", "")
CXX = "clang++-17"
BASE_FLAGS = ["-std=c++20", "-stdlib=libc++", "-U_FORTIFY_SOURCE",
              "-fno-omit-frame-pointer", "-w", "-iquote", REPO,
              "-I", os.path.join(VERIF, "drivers")]
LIBS = ["best/log/internal/crash.cc", "best/memory/allocator.cc",
        "best/iter/bounds.cc", "best/text/format.cc", "best/io/ioerr.cc"]
CPUS = os.cpu_count() or 4


class Broken(Exception):
    """The check itself could not reach a verdict."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = collections.OrderedDict()
        self.cov["states"] = 0
        self.cov["transitions"] = 0
        self.cov["traces_validated_against_impl"] = 0
        self.cov["events_validated"] = 0
        self.cov["samples"] = []
        self.outcomes = collections.Counter()
        self.models = []
        self.suites = []
        self.violations = []
        self.known_hit = []
        self.exes = {}
        self.notes = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        self.pending = []
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"]
                          if k["property"] == pid and k.get("status") == "known"]

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- building -----------------------------------------------------------
    def build(self, name, src=None, defs=(), san=True, libs=LIBS, opt="-O1",
              extra=()):
        """Compiles /verif/drivers/<src> and the library sources it needs from
        the working tree of /repo."""
        return self.build_many([dict(name=name, src=src or name + ".cc",
                                     defs=defs, san=san, libs=libs, opt=opt,
                                     extra=extra)])[0]

    def build_many(self, specs):
        jobs = []
        outs = []
        seen = {}
        for s in specs:
            san = s.get("san", True)
            flags = BASE_FLAGS + [s.get("opt", "-O1"), "-g0"]
            if san:
                flags += ["-fsanitize=address", "-fno-sanitize-recover=all"]
            objs = []
            for lib in s.get("libs", LIBS):
                o = os.path.join(self.dir, "lib_%d_%s_%s.o" % (
                    san, s.get("opt", "-O1").strip("-"), lib.replace("/", "_")))
                if o not in seen:
                    seen[o] = 1
                    jobs.append(([CXX] + flags + ["-c", os.path.join(REPO, lib),
                                                  "-o", o], o))
                objs.append(o)
            o = os.path.join(self.dir, s["name"] + ".o")
            defs = ["-D" + d for d in s.get("defs", ())]
            src = os.path.join(VERIF, "drivers", s.get("src") or s["name"] + ".cc")
            jobs.append(([CXX] + flags + defs + list(s.get("extra", ())) +
                         ["-c", src, "-o", o], o))
            exe = os.path.join(self.dir, s["name"])
            outs.append((exe, [o] + objs + list(s.get("ld", ())), san))
        with ThreadPoolExecutor(CPUS) as ex:
            for (cmd, o), r in zip(jobs, ex.map(lambda j: sh(j[0], timeout=600), jobs)):
                if r.returncode:
                    print(r.stdout[-4000:])
                    self._refused(cmd, r)
                    raise Broken("compile failed: " + " ".join(cmd))
        for exe, objs, san in outs:
            # The ASan runtime ships with clang 18 only; its ABI is the same.
            r = sh(["clang++-18", "-fsanitize=address", "-stdlib=libc++",
                    "-L/usr/lib/llvm-17/lib", "-o", exe] + objs + ["-lm"]
                   if san else
                   [CXX, "-stdlib=libc++", "-fuse-ld=lld", "-o", exe] + objs + ["-lm"])
            if r.returncode:
                print(r.stdout[-4000:])
                raise Broken("link failed")
        return [e for e, _, _ in outs]

    def _refused(self, cmd, r):
        """The properties quantify over element types and call shapes, and the
        drivers are programs over the public interface that use them. If the
        library's own sources compile but such a program is ill-formed, the
        operation is not there for it, which is a violation; anything else that
        goes wrong with a compiler is not (missing files, lack of memory)."""
        src = cmd[cmd.index("-c") + 1]
        errs = [l for l in r.stdout.splitlines() if ": error: " in l]
        if (r.returncode == 1 and errs and not src.startswith(REPO) and "fatal error" not in r.stdout
                and "_internal::" not in open(src).read()):
            self.violation({"property": self.pid, "suite": "build", "program": src, "command": cmd,
                            "expected": "a program over the public interface that compiles",
                            "errors": errs[:20], "output": r.stdout[-8000:]})

    # -- running the implementation -----------------------------------------
    def drive(self, exe, script, single=True, tag="t", timeout=600):
        """Runs the driver; returns the list of events (dicts)."""
        sp = os.path.join(self.dir, tag + ".script")
        op = os.path.join(self.dir, tag + ".ndjson")
        with open(sp, "w") as f:
            f.write("\n".join(script) + "\n")
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:hard_rss_limit_mb=6000"
                               ":max_allocation_size_mb=2000:allocator_may_return_null=0"
                               ":detect_stack_use_after_return=0")
        r = sh([exe] + (["-1"] if single else []) + [sp, op], env=env,
               timeout=timeout)
        if r.returncode:
            print(r.stdout[-3000:])
            raise Broken("driver %s exited with %d" % (exe, r.returncode))
        with open(op) as f:
            return [json.loads(l) for l in f]

    def drive_par(self, exe, script, single=True, tag="t", timeout=600, shards=CPUS):
        """Like drive, over several processes (histories stay whole)."""
        if single:
            parts = [script[i::shards] for i in range(shards)]
        else:
            hs = split_histories(script)
            parts = [sum(hs[i::shards], []) for i in range(shards)]
        parts = [p for p in parts if p]
        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(lambda ip: self.drive(exe, ip[1], single,
                                                    "%s.%d" % (tag, ip[0]), timeout),
                              enumerate(parts)))
        out = []
        base = 0
        for r in res:
            m = 0
            for e in r:
                m = max(m, e["h"])
                e["h"] += base
            base += m
            out += r
        return out

    # -- TLC ----------------------------------------------------------------
    def _tlc(self, module, cfg, tag, env=None, workers=1, mem="3g", args=(),
             timeout=800, quick=False):
        meta = os.path.join(self.dir, "meta_" + tag)
        shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
        if quick:
            # Too short to be worth optimising.
            cmd.append("-XX:TieredStopAtLevel=1")
        cmd += ["-Xmx" + mem, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        try:
            r = sh(cmd, cwd=os.path.join(VERIF, "tla"), env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def _validate_shard(self, module, events, tag, env=None):
        """Returns [(index in events, what the spec expected)]."""
        path = os.path.join(self.dir, tag + ".ndjson")
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        ev = {"TRACE": path}
        ev.update(env or {})
        bad = []
        r = self._tlc(module + ".tla", "trace.cfg", tag, env=ev, quick=len(events) < 12000)
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),(.*?)>>\s*\n(?=\S)', r.stdout, re.S):
            bad.append((int(m.group(1)) - 1, " ".join(m.group(2).split())))
        done = '"TRACE-DONE"' in r.stdout
        if done and r.returncode == 0:
            return bad
        # The specification could not even evaluate an event: it is not one the
        # specification admits. (Everything the unchanged tree emits is.)
        idx = None
        for mm in re.finditer(r"^(?:/\\ )?i = (\d+)", r.stdout, re.M):
            idx = int(mm.group(1)) - 1
        if idx is None:
            print(r.stdout[-3000:])
            raise Broken("TLC failed on trace " + path)
        err = re.search(r"Error: (.*?)\n", r.stdout)
        bad.append((idx, "not admitted by the specification (%s)" %
                    (err.group(1) if err else "evaluation error")))
        self._last_tlc = r.stdout
        return bad

    def validate(self, module, events, name, exe=None, script=None, single=True,
                 env=None, selftest=True, loose=None, leaves=None):
        """Validates recorded events against trace specification `module`."""
        if not events:
            raise Broken("no events for " + name)
        groups = []
        for e in events:
            if not groups or groups[-1][-1]["h"] != e["h"]:
                groups.append([])
            groups[-1].append(e)
        corrupted = corrupt(groups, self.rng, loose=loose, leaves=leaves) if selftest else []
        self.pending.append(dict(module=module, events=events, name=name, exe=exe, single=single,
                                 env=env, groups=groups, corrupted=corrupted))

    def flush(self):
        """Runs every validation asked for so far, side by side."""
        todo, self.pending = self.pending, []
        if not todo:
            return
        size = max(4000, sum(len(t["events"]) for t in todo) // (4 * CPUS))
        work = []
        for t in todo:
            n = max(1, -(-len(t["events"]) // size))
            target = len(t["events"]) / n
            parts = [[]]
            for g in t["groups"]:
                if len(parts[-1]) >= target:
                    parts.append([])
                parts[-1] += g
            # The corrupted histories come last: all before them has been
            # judged by then.
            parts[-1] = parts[-1] + [e for g in t["corrupted"] for e in g]
            for i, p in enumerate(parts):
                work.append((t, p, "%s_%s_s%d" % (t["name"], t["module"], i)))
        work.sort(key=lambda w: -len(w[1]))
        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(lambda w: self._validate_shard(w[0]["module"], w[1], w[2], w[0]["env"]), work))
        found = {}
        for (t, p, _), bad in zip(work, res):
            found.setdefault(id(t), []).extend((p, i, exp) for i, exp in bad)
        for t in todo:
            self._judge(t, sorted(found.get(id(t), []), key=lambda x: x[0][x[1]]["h"]))

    def _judge(self, t, found):
        module, events, name, exe, single, env = (t[k] for k in
                                                  ("module", "events", "name", "exe", "single", "env"))
        groups, corrupted = t["groups"], t["corrupted"]
        hit = {p[i]["h"] for p, i, _ in found}
        found = [f for f in found if f[0][f[1]]["h"] < 10 ** 9]
        missed = [g for g in corrupted if g[0]["h"] not in hit]
        if missed and not found:
            raise Broken("specification %s accepted a corrupted trace: %s" %
                         (module, json.dumps(missed[0])[-2000:]))
        if corrupted:
            self.cov["corrupted_traces_rejected"] = \
                self.cov.get("corrupted_traces_rejected", 0) + len(corrupted) - len(missed)
        for e in events:
            self.outcomes[e["op"] + ":" + e["k"]] += 1
        self.cov["traces_validated_against_impl"] += len(groups)
        self.cov["events_validated"] += len(events)
        self.cov["samples"] += [trim(g) for g in
                                self.rng.sample(groups, min(2, len(groups)))]
        self.suites.append({"suite": name, "spec": module, "histories": len(groups),
                            "events": len(events)})
        fails = []
        for p, idx, exp in found:
            h = p[idx]["h"]
            fails.append(([e for e in p[:idx + 1] if e["h"] == h], exp))
        self.log("%s: %d histories, %d events against %s: %d rejected" %
                 (name, len(groups), len(events), module, len(fails)))
        if fails:
            by = collections.Counter(f[0][-1]["op"] + ":" + f[0][-1]["k"] for f in fails)
            self.log("  rejected by operation:", dict(by))
            if os.environ.get("VERIF_SHOW"):
                cnt = collections.Counter()
                for hist, exp in fails:
                    o = hist[-1]["op"] + ":" + hist[-1]["k"]
                    cnt[o] += 1
                    if cnt[o] <= int(os.environ["VERIF_SHOW"]):
                        print("   ", [cmdline(e) for e in hist] if not single else "",
                              json.dumps(hist[-1])[:1000], "|", exp[:500])
            self._confirm(fails, module, name, exe, single, env)

    def _confirm(self, fails, module, name, exe, single, env):
        # Known findings first; then re-run what is left, alone.
        rest = []
        for hist, exp in fails:
            k = self._known_for(hist)
            if k:
                self.known_hit.append(k)
            else:
                rest.append((hist, exp))
        if not rest:
            return
        rest = rest[:12]
        if exe:
            script = []
            for hist, _ in rest:
                if not single:
                    script.append("#")
                for e in hist:
                    script.append(cmdline(e))
            events = self.drive(exe, script, single, name + "_rerun")
            bad = self._validate_shard(module, events, name + "_rerun_v", env)
            if not bad:
                raise Broken("rejection in %s did not reproduce: %s" %
                             (name, json.dumps(rest[0][0])[:1500]))
            idx, exp = bad[0]
            hist = [e for e in events[:idx + 1] if e["h"] == events[idx]["h"]]
            if self._known_for(hist):
                return
        else:
            hist, exp = rest[0]
        self.violation({"suite": name, "spec": module, "history": hist,
                        "expected": exp, "distinct_rejections": len(fails),
                        "script": [cmdline(e) for e in hist]})

    def _known_for(self, hist):
        e = hist[-1]
        for k in self.known:
            m = k["match"]
            if m.get("op") == e["op"] and ("a" not in m or m["a"] == e["a"]) and \
               ("k" not in m or m["k"] == e["k"]) and ("v" not in m or m["v"] == e["v"]):
                return k
        return None

    def violation(self, info):
        self.violations.append(info)
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        info["replay"] = p
        last = info["history"][-1] if info.get("history") else {}
        self.log("REJECTED", json.dumps(last)[:600], "| expected", str(info.get("expected"))[:600])

    def model(self, module, cfg, name=None, workers=CPUS, env=None, timeout=800,
              mem="8g", args=(), expect_error=None, edges=None):
        """Model-checks a specification exhaustively; the specification's own
        invariants are independent of the code, so a failure is a broken check."""
        name = name or cfg.replace(".cfg", "")
        t = time.time()
        r = self._tlc(module + ".tla", cfg, "mc_" + name, env=env, workers=workers,
                      mem=mem, args=list(args) + (["-coverage", "1"] if self.thorough else []),
                      timeout=timeout)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        ok = "Model checking completed. No error has been found." in r.stdout
        if expect_error:
            if not re.search(expect_error, r.stdout):
                print(r.stdout[-3000:])
                raise Broken("negative control %s was not rejected" % name)
        elif not ok or not m:
            print(r.stdout[-5000:])
            raise Broken("model %s does not satisfy its own properties" % name)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not expect_error:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        self.models.append({"model": name, "spec": module, "distinct_states": dist,
                            "states_generated": gen, "wall_s": round(time.time() - t, 1),
                            "negative_control": bool(expect_error)})
        self.log("model %s: %d distinct states, %d transitions" % (name, dist, gen))
        if edges is not None:
            for m in re.finditer(r'<<"EDGE", "(.*)">>', r.stdout):
                edges.append(json.loads(m.group(1).encode().decode("unicode_escape")
                                        if "\\" in m.group(1) else m.group(1)))
        return r

    # -- reporting ----------------------------------------------------------
    def finish(self):
        self.cov["outcomes"] = dict(sorted(self.outcomes.items()))
        self.cov["models"] = self.models
        self.cov["suites"] = self.suites
        self.cov["samples"] = self.cov["samples"][:12]
        ev = {"property": self.pid, "tier": self.tier if self.tier in
              ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2)}
        if self.notes:
            ev["assumptions"] = self.notes
        if self.violations:
            ev["violations"] = len(self.violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k in self.known_hit:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0]["replay"]))
            return 1
        self.log("property held on everything explored")
        return 0


def cmdline(e):
    return " ".join([e["op"]] + [str(x) for x in e["a"]])


def trim(g):
    g = g[-6:]
    s = json.dumps(g)
    if len(s) > 1500:
        return s[:1500] + "..."
    return g


def split_histories(script):
    hs = []
    for l in script:
        if l == "#" or not hs:
            hs.append([])
        hs[-1].append(l)
    return hs


def corrupt(groups, rng, n=24, loose=None, leaves=None):
    """Copies of recorded histories with one observed field changed: the
    specification has to reject every one of them. `loose` gives the places of
    an answer that may hold several values; True: only states are judged."""
    out = []
    h = 10 ** 9
    for g in rng.sample(groups, min(n, len(groups))):
        h += 1
        c = [dict(e, h=h) for e in g]
        e = c[-1]
        if e.get("loose"):
            continue
        spots = find_leaves(e.get("s"), leaves) if leaves else []
        if spots and (loose is True or rng.random() < 0.8):
            e["s"] = json.loads(json.dumps(e["s"]))
            box, key = rng.choice(find_leaves(e["s"], leaves))
            box[key] = box[key] + 1 if box[key] < 2 ** 30 else box[key] - 1
        elif leaves and (not e["v"] or loose is True):
            continue
        elif e["v"] and rng.random() < 0.7:
            v = list(e["v"])
            free = loose(e) if loose else ()  # places that may hold several values
            fixed = [j for j in range(len(v)) if j not in free]
            if not fixed:
                continue
            j = rng.choice(fixed)
            v[j] = v[j] + 1 if v[j] < 2 ** 30 else v[j] - 1
            e["v"] = v
        elif e["k"] == "ok":
            e["k"] = "crash"
            e["v"] = []
        else:
            e["k"] = "ok"
            e["v"] = [17]
        out.append(c)
    return out


def find_leaves(s, keys):
    """(container, key) of every integer under one of the named keys."""
    out = []

    def walk(x, inside):
        if isinstance(x, dict):
            for k in x:
                if isinstance(x[k], int):
                    if k in keys or inside:
                        out.append((x, k))
                else:
                    walk(x[k], inside or k in keys)
        elif isinstance(x, list):
            for j, y in enumerate(x):
                if isinstance(y, int):
                    if inside:
                        out.append((x, j))
                else:
                    walk(y, inside)
    walk(s, False)
    return out


def walks(edges, start, limit=40, finish=()):
    """Histories that together take every transition of a state graph. An edge
    is [before, op, args, after]; `finish` lists commands that end a history."""
    def key(x):
        return json.dumps(x, sort_keys=True)
    out, left = collections.defaultdict(list), collections.defaultdict(list)
    for b, op, a, t in edges:
        e = (" ".join([op] + [str(x) for x in a]), key(t))
        out[key(b)].append(e)
        left[key(b)].append(e)
    todo = len(edges)
    hs, at, h = [], key(start), []
    while todo:
        if left[at] and len(h) < limit:
            cmd, at = left[at].pop()
            h.append(cmd)
            todo -= 1
            continue
        path = None
        if len(h) < limit:
            seen, q = {at: None}, collections.deque([at])
            while q:
                x = q.popleft()
                if left[x]:
                    path = []
                    while seen[x]:
                        x, cmd, t = seen[x]
                        path.append((cmd, t))
                    break
                for cmd, t in out[x]:
                    if t not in seen:
                        seen[t] = (x, cmd, t)
                        q.append(t)
        if not path:
            if not h:
                raise Broken("transitions out of reach of the start state")
            hs.append(h)
            at, h = key(start), []
            continue
        for cmd, t in reversed(path):
            h.append(cmd)
            at = t
    if h:
        hs.append(h)
    return [h + list(finish) for h in hs]


def l16(x, bits=64):
    """A 64-bit value as four 16-bit limbs, low first (two's complement)."""
    x &= (1 << 64) - 1
    return [(x >> (16 * i)) & 0xFFFF for i in range(4)]


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        c.flush()
        rc = c.finish()
    except Broken as e:
        try:
            c.flush()
        except Broken as e2:
            c.log("also:", e2)
        if c.violations:
            # A reproduced violation stands even if a later stage broke down.
            c.log("later stage incomplete:", e)
            sys.exit(c.finish())
        print("BROKEN %s: %s" % (pid, e))
        sys.exit(2)
    sys.exit(rc)
