"""Common machinery of the checks: building the harness from /repo, running jobs in it, running TLC, reporting."""
import hashlib
import json
import os
import subprocess
import sys
import time
import concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(VERIF), "repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = os.path.join(BUILD, "java")
ZKH = os.path.join(TARGET, "debug", "zkh")
ZKF = os.path.join(TARGET, "debug", "zkf")
CLI = os.path.join(TARGET, "debug", "zokrates")


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cfg zokrates_verif", CARGO_INCREMENTAL="0")
    e.pop("RUSTC_WRAPPER", None)
    return e


def sources_hash():
    """of everything the build reads from /repo"""
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules", "tests", "examples"))
        for f in sorted(files):
            if f.endswith((".rs", ".pest", ".toml", ".zok", ".code", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as s:
                    h.update(s.read())
    return h.hexdigest()


def freshen(tag):
    """cargo goes by modification times: when the sources differ from those of the last build, make sure it looks again"""
    mark = os.path.join(BUILD, "sources." + tag)
    h = sources_hash()
    old = open(mark).read() if os.path.exists(mark) else None
    return mark, h, old != h


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_java():
    src = os.path.join(VERIF, "java", "BigNat.java")
    out = os.path.join(JAVA, "BigNat.class")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(JAVA, exist_ok=True)
        r = run(["javac", "-cp", TLA, "-d", JAVA, src])
        if r.returncode:
            raise SystemExit("javac failed:\n" + r.stdout)


def build(*binaries):
    """builds the harness from /repo's working tree: zkh, zkf (files) or zokrates (the command line tool)"""
    os.makedirs(BUILD, exist_ok=True)
    build_java()
    e = env()
    mark, h, changed = freshen("all")
    if changed:
        # drop the fingerprints of the repository's own crates, so that they are compiled again
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("zokrates") or d.startswith("zkh") or d.startswith("zkf"):
                    subprocess.run(["rm", "-rf", os.path.join(fp, d)])
    for x in binaries or ("zkh",):
        r = run(["cargo", "build", "--offline", "-p", "zkf" if x == "zkf" else "zkh", "--bin", x], cwd=os.path.join(VERIF, "harness"), env=e)
        if r.returncode:
            raise SystemExit("building %s failed:\n%s" % (x, r.stdout[-6000:]))
    with open(mark, "w") as f:
        f.write(h)


def scratch(name):
    d = os.path.join(BUILD, "run", name)
    os.makedirs(d, exist_ok=True)
    return d


def run_jobs(jobs, name, threads=8, timeout=1500, tool=None):
    """runs the jobs in the real code; the results in the order of the jobs.  A job which kills the process
    (stack overflow, abort) is found by splitting and reported as {"error": "killed"}."""
    d = scratch(name)
    for i, j in enumerate(jobs):
        j["id"] = i

    def go(part, tag, th):
        jf, of = os.path.join(d, "jobs%s.jsonl" % tag), os.path.join(d, "out%s.jsonl" % tag)
        with open(jf, "w") as f:
            for j in part:
                f.write(json.dumps(j) + "\n")
        try:
            r = subprocess.run([tool or ZKH, jf, of, str(th)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            rc, err = r.returncode, r.stderr[-400:].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        res = {}
        if rc == 0:
            with open(of) as f:
                for l in f:
                    x = json.loads(l)
                    res[x["id"]] = x
        for p in (jf, of):
            if os.path.exists(p):
                os.unlink(p)
        return rc, err, res

    def split(part, tag, th):
        if not part:
            return {}
        rc, err, res = go(part, tag, th)
        if rc == 0:
            return res
        if len(part) == 1:
            return {part[0]["id"]: {"error": "killed", "err": "%s %s" % (rc, err), "compile": "panic", "id": part[0]["id"]}}
        m = len(part) // 2
        a = split(part[:m], tag, th)
        a.update(split(part[m:], tag, th))
        return a

    res = split(jobs, "", threads)
    return [res[i] for i in range(len(jobs))]


class TlcError(Exception):
    pass


def tlc(module, cfg=None, cases=None, name=None, workers=8, timeout=1500, heap="6g", extra=(), envx=None):
    """runs TLC on /verif/spec/<module>.tla; returns (output, states generated, distinct states)"""
    name = name or module
    d = scratch("tlc_" + name)
    e = dict(os.environ)
    if cases:
        e["CASES"] = cases
    if envx:
        e.update(envx)
    cfg = cfg or (module + ".cfg")
    cmd = ["timeout", str(timeout), "java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-cp", JAVA + ":" + TLA, "tlc2.TLC",
           "-deadlock", "-noTE", "-metadir", os.path.join(d, "meta"), "-config", cfg, "-workers", str(workers), *extra, module + ".tla"]
    r = run(cmd, cwd=os.path.join(VERIF, "spec"), env=e)
    subprocess.run(["rm", "-rf", os.path.join(d, "meta")])
    st = ds = 0
    for l in r.stdout.splitlines():
        if " states generated, " in l and "distinct states found" in l:
            w = l.replace(",", "").split()
            st, ds = int(w[0]), int(w[w.index("generated") + 1])
    return r.returncode, r.stdout, st, ds


def tlc_sessions(module, sessions, name, shards=8, timeout=1500, cfg=None, heap="3g"):
    """validates the recorded sessions in several TLC processes; returns (lines printed by the specification, states)"""
    d = scratch("cases_" + name)
    shards = max(1, min(shards, len(sessions)))
    # deal the sessions out by size
    parts = [[] for _ in range(shards)]
    for i, s in enumerate(sessions):
        parts[i % shards].append(s)
    files = []
    for i, p in enumerate(parts):
        f = os.path.join(d, "cases%d.json" % i)
        with open(f, "w") as o:
            json.dump(p, o, separators=(",", ":"))
        files.append(f)
    lines, states, dist = [], 0, 0

    def one(i):
        return tlc(module, cfg, files[i], "%s_%d" % (name, i), workers=1, timeout=timeout, heap=heap)

    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        for i, (rc, out, st, ds) in enumerate(ex.map(one, range(shards))):
            if rc != 0:
                raise TlcError("TLC on %s ended with %s:\n%s" % (files[i], rc, "\n".join(
                    l for l in out.splitlines() if not l.startswith('"##'))[-5000:]))
            states += st
            dist += ds
            lines += [json.loads(l) for l in out.splitlines() if l.startswith('"@@') or l.startswith('"##')]
    for f in files:
        os.unlink(f)
    return lines, states, dist


class Report:
    """collects what a check covered and found"""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.notes = {}
        kf = os.path.join(VERIF, "known-findings.json")
        self.kf = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == prop] if os.path.exists(kf) else []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, what, data, key=None):
        """key identifies the failing input or site; listed keys are known findings"""
        for k in self.kf:
            if key is not None and k["key"] == key:
                if k["key"] not in [x["key"] for x in self.known]:
                    self.known.append(k)
                return
        self.violations.append((what, data))

    def finish(self):
        d = os.path.join(BUILD, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for i, (what, data) in enumerate(self.violations[:20]):
            p = os.path.join(d, "violation%d.json" % i)
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:600])
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.violations:
            ev["violations"] = len(self.violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.0f s; %s" % (self.prop, self.tier, "VIOLATED" if self.violations else "held",
                                           time.time() - self.t0, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 1 if self.violations else 0
