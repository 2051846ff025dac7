"""Driver support: build the harness from /repo, run TLC, replay cases, write evidence.

The oracle is the TLA+ specification in spec/; nothing here decides a property."""
import copy, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "harness", "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    """Rebuild the harness against /repo's current tree; returns the binary's path."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".stamp")
        h = tree_hash(REPO + "/src", REPO + "/Cargo.toml", VERIF + "/harness/src", VERIF + "/harness/Cargo.toml")
        exe = os.path.join(TARGET, "debug", "synconf")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old == h and os.path.exists(exe):
            return exe
        if os.path.exists(stamp):
            os.remove(stamp)
        # contents decide, not time stamps
        subprocess.run(["cargo", "clean", "--offline", "-p", "syntaxis", "-p", "synconf"], cwd=VERIF + "/harness",
                       env=cargo_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=VERIF + "/harness", env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build against /repo:\n" + "\n".join(
                l for l in r.stdout.splitlines() if "error" in l or "-->" in l)[:3000])
        open(stamp, "w").write(h)
        return exe


class Work:
    """Scratch directory of one check run, removed at the end."""

    def __init__(self, name):
        self.dir = os.path.join(VERIF, "work", "%s-%d" % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=True, separators=(",", ":")) + "\n")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _chunk(exe, work, mode, cases, timeout, tag):
    cin, cout = work.path("cases-%s" % tag), work.path("out-%s" % tag)
    write_ndjson(cin, cases)
    open(cout, "w").close()
    got, start, bad = {}, 0, 0
    while start < len(cases):
        p = subprocess.run([exe, mode, cin, cout, str(start), str(timeout)], cwd=REPO, preexec_fn=_limits,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        for line in open(cout):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            got[r["i"]] = r
        if p.returncode == 0:
            break
        if p.returncode == 9:
            raise ToolError("the harness cannot read its own case (%s)" % mode)
        nxt = max([i for i in got] + [start - 1]) + 1
        if p.returncode != 3:  # crashed: the case after the last answered one did it
            got[nxt] = {"i": nxt, "crash": p.returncode}
            nxt += 1
        bad += 1
        start = nxt
        if bad >= 3:  # enough evidence; do not wait for more
            break
    os.remove(cin)
    os.remove(cout)
    return [got.get(i) for i in range(len(cases))]


def replay(exe, work, mode, cases, timeout=30, procs=8):
    """Runs the cases in the real code. One observation per case:
    {"r":"ok","v":..} | {"r":"panic"} | {"r":"hang"} | {"r":"crash"} | None (not run)."""
    n = len(cases)
    procs = max(1, min(procs, n))
    parts = [list(range(k, n, procs)) for k in range(procs)]
    with ThreadPoolExecutor(procs) as ex:
        futs = [ex.submit(_chunk, exe, work, mode, [cases[i] for i in ix], timeout, "%s%d" % (mode, k))
                for k, ix in enumerate(parts)]
    res = [None] * n
    for ix, f in zip(parts, futs):
        for i, r in zip(ix, f.result()):
            if r is None:
                continue
            if "ok" in r:
                res[i] = {"r": "ok", "v": r["ok"]}
            elif "panic" in r:
                res[i] = {"r": "panic", "msg": r["panic"]}
            elif "hang" in r:
                res[i] = {"r": "hang"}
            else:
                res[i] = {"r": "crash", "msg": str(r["crash"])}
    return res


class Tlc:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = []
        self.tags = {}

    def run(self, work, module, cfg, env=None, workers=8, heap="6g", timeout=800, extra=()):
        """Runs TLC on spec/<module>.tla with cfg text; returns stdout."""
        meta = work.path("meta")
        os.makedirs(meta)
        cfgp = os.path.join(meta, module + ".cfg")
        open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-config", cfgp,
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", *extra, module + ".tla"]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dis
        self.transitions += gen
        self.runs.append({"module": module, "distinct_states": dis, "states_generated": gen,
                          "wall_s": round(time.time() - t0, 1)})
        r.stdout_ok = "Model checking completed. No error has been found." in r.stdout
        return r


def parse_verdicts(out):
    v = {}
    # TLC breaks long tuples over lines
    for m in re.finditer(r'<<\s*"V",\s+(\d+),\s+"((?:[^"\\]|\\.)*)"\s*>>', out):
        v[int(m.group(1))] = m.group(2)
    return v


TR_CFG = "SPECIFICATION TrSpec\nCHECK_DEADLOCK FALSE\n"


def validate(tlc, work, module, rows, env=None, heap="8g", timeout=800, cfg=TR_CFG, depth=0):
    """Trace validation: TLC must give a verdict for every recorded behaviour.
    Returns {index: reason} for the rejected ones."""
    if not rows:
        return {}
    path = work.path("trace.ndjson")
    write_ndjson(path, rows)
    e = dict(env or {})
    e["TR_IN"] = path
    r = tlc.run(work, module, cfg, e, heap=heap, timeout=timeout)
    os.remove(path)
    v = parse_verdicts(r.stdout)
    for tag in re.findall(r'<<\s*"([A-Z]{2,})",\s+\d+\s*>>', r.stdout):
        tlc.tags[tag] = tlc.tags.get(tag, 0) + 1
    rej = {i - 1: m for i, m in v.items() if m != ""}
    missing = [i for i in range(len(rows)) if i + 1 not in v]
    if not missing and (r.stdout_ok):
        return rej
    if "Parsing or semantic analysis failed" in r.stdout or not re.search(r"TLC threw an unexpected exception|evaluat|Attempted to|Error: ", r.stdout):
        raise ToolError("TLC gave no verdict (%s):\n%s" % (module, r.stdout[-3000:]))
    # An observation outside what the specification can even interpret: find it.
    if len(rows) == 1:
        tail = [l for l in r.stdout.splitlines() if "Attempted" in l or "Error" in l or "threw" in l]
        log(r.stdout[-3000:])
        return {0: "observation outside the specification's domain: " + " ".join(tail)[:300]}
    if depth > 14:
        raise ToolError("TLC evaluation error:\n" + r.stdout[-3000:])
    m = re.search(r"^/\\ c = (\d+)$", r.stdout, re.M)
    if m and int(m.group(1)) - 1 in missing:  # TLC says which behaviour it was looking at
        sus = [int(m.group(1)) - 1]
    else:
        sus = missing
    mid = (len(sus) + 1) // 2
    for half in ([sus] if len(sus) < len(rows) else [sus[:mid], sus[mid:]]):
        sub = validate(tlc, work, module, [rows[i] for i in half], env, heap, timeout, cfg, depth + 1)
        for k, m in sub.items():
            rej[half[k]] = m
        if len(rej) >= 1:
            break
    if not rej:
        raise ToolError("TLC evaluation error:\n" + r.stdout[-3000:])
    return rej


def flat(t):
    """Preorder list of a tree (see spec/TraceTree.tla)."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x["k"] == "R":
            y = {k: v for k, v in x.items() if k != "ch"}
            y["n"] = len(x["ch"])
            out.append(y)
            todo.extend(reversed(x["ch"]))
        else:
            out.append(x)
    return out


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


class Check:
    """One property's run: collects model checks, replays, verdicts; writes evidence."""

    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = Work(pid)
        self.tlc = Tlc()
        self.viol = []
        self.known = []
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self._exe = None

    @property
    def exe(self):
        if self._exe is None:
            self._exe = build()
        return self._exe

    def rng(self, tag=""):
        import random
        return random.Random("%s/%d/%s" % (self.id, self.seed, tag))

    def model(self, module, cfg, env=None, **kw):
        """Design-level model check; a violation here is an error of the specification."""
        r = self.tlc.run(self.work, module, cfg, dict({"MC_OUT": ""}, **(env or {})), **kw)
        if not r.stdout_ok:
            raise ToolError("model check of %s failed:\n%s" % (module, r.stdout[-4000:]))
        return r

    def model_refutes(self, module, cfg, env=None, **kw):
        """A deliberately broken variant of the design must be refuted (non-vacuity)."""
        r = self.tlc.run(self.work, module, cfg, dict({"MC_OUT": ""}, **(env or {})), **kw)
        if r.stdout_ok or "is violated" not in r.stdout:
            raise ToolError("the broken variant of %s was not refuted:\n%s" % (module, r.stdout[-3000:]))

    def conform(self, mode, module, cases, project=None, env=None, timeout=30, group=None, classify=None, obs=None, **kw):
        """Replay cases, then validate the observations against the specification."""
        if obs is None:
            obs = replay(self.exe, self.work, mode, cases, timeout)
        hung = [i for i, o in enumerate(obs) if o and o["r"] == "hang"]
        if hung:  # a slow machine is not a hang: ask again, alone and with patience
            again = replay(self.exe, self.work, mode, [cases[hung[0]]], timeout * 3, 1)
            if again[0] and again[0]["r"] != "hang":
                obs = replay(self.exe, self.work, mode, cases, timeout * 4)
        rows, back = [], []
        for i, (c, o) in enumerate(zip(cases, obs)):
            if o is None:
                continue
            o = dict(o)
            if "v" not in o:
                o["v"] = {}
            o.setdefault("msg", "")
            row = project(c, o) if project else {"case": c, "obs": o}
            rows.append(row)
            back.append(i)
        if all(o is None for o in obs) and cases:
            raise ToolError("no case of mode %s was run" % mode)
        if self.thorough:
            kw.setdefault("timeout", 3000)
        rej = validate(self.tlc, self.work, module, rows, env, **kw)
        self.traces += len(rows)
        if rows:
            k = len(rows) // 2
            s = json.dumps(rows[k])
            self.samples.append({"mode": mode, "trace": json.loads(s) if len(s) < 3000 else s[:3000]})
        self.notes["traces_" + (group or module)] = self.notes.get("traces_" + (group or module), 0) + len(rows)
        for k in sorted(rej):
            known = classify(cases[back[k]], rows[k], rej[k]) if classify else None
            if known:
                self.known.append(known)
            else:
                self.violation(mode, module, cases[back[k]], rows[k], rej[k], env, kw.get("cfg"))
        return obs

    def violation(self, mode, module, case, row, why, env=None, cfg=None):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.id, self.tier, len(self.viol)))
        if len(self.viol) < 20:
            json.dump({"property": self.id, "mode": mode, "module": module, "env": env or {}, "cfg": cfg or TR_CFG, "why": why, "case": case,
                       "trace": row}, open(p, "w"), indent=1)
        self.viol.append((p, why))

    def finish(self):
        cov = {
            "states": self.tlc.states, "transitions": self.tlc.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:6] or ["none"],
            "tlc_runs": self.tlc.runs,
        }
        cov.update(self.notes)
        if self.tlc.tags:
            cov["tags"] = self.tlc.tags
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.tier == "replay":
            ev["replayed"] = True
        else:
            json.dump(ev, open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1)
        self.work.close()
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        for p, why in self.viol[:10]:
            log("  %s: %s" % (p, why))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.id, self.viol[0][0]))
            return 1
        log("%s ok: %d states, %d traces, %.1fs" % (self.id, self.tlc.states, self.traces, time.time() - self.t0))
        return 0
