"""C09: the binary format, against ZokFile."""
import json
import random
import time
import vc
import lang
import chk_lang
from chk_opt import IrGen
from chk_field import PRIMES, SIZE

TOOLS = ("zkf",)
# first bytes of the hash of the prime (little endian), as the format identifies curves
import hashlib
CURVE = {k: list(hashlib.sha256(p.to_bytes(SIZE[k], "little")).digest()[:4]) for k, p in PRIMES.items()}
NAMES = {n: list(n.encode()) for n in ["id", "value", "left", "right", "private", "Ref", "index", "signature", "Constraint", "quad", "lin", "Directive",
                                       "inputs", "outputs", "solver", "Log", "expressions", "Block", "inner", "modules"]}


def hint(rng, vs, d=2):
    if d == 0 or rng.random() < .25:
        return rng.choice(vs) if rng.random() < .75 else str(rng.choice([0, 1, 2, 3, 7, 1 << 33]))
    k = rng.randrange(10)
    a, b = hint(rng, vs, d - 1), hint(rng, vs, d - 1)
    if k < 6:
        return "(%s %s %s)" % (a, rng.choice("+-**"), b)
    if k == 6:
        return "(%s / %s)" % (a, b)
    if k == 7:
        return "(%s == %s ? %s : %s)" % (a, b, a, b)
    if k == 8:
        return "(%s ** %d)" % (a, rng.randrange(4))
    return "(%s %s %d)" % (a, rng.choice([">>", "<<"]), rng.randrange(1, 9)) if rng.random() < .5 else "(%s %s %s)" % (a, rng.choice("&|^"), b)


def asm(rng):
    """a program which gives its own hints and constraints"""
    n = rng.randrange(1, 4)
    vs = ["a%d" % i for i in range(n)]
    ps = ", ".join("%sfield %s" % (rng.choice(["private ", "public ", ""]), v) for v in vs)
    text, hints = "", []
    outs = ["y%d" % i for i in range(rng.randrange(1, 5))]
    for y in outs:
        text += "    field mut %s = 0;\n" % y
    text += "    asm {\n"
    for y in outs:
        h = rng.choice(hints) if hints and rng.random() < .4 else hint(rng, vs)
        hints.append(h)
        text += "        %s <-- %s;\n" % (y, h)
        if rng.random() < .93:
            text += "        %s === %s * %s;\n" % (y, rng.choice(vs), rng.choice(vs + ["3"]))
        vs = vs + [y]
    text += "    }\n"
    if rng.random() < .5:
        text += "    assert(%s != 5);\n" % rng.choice(vs)
    if rng.random() < .5:
        text += "    log(\"v {} w {}\", %s, [%s, %s]);\n" % (rng.choice(vs), rng.choice(vs), rng.choice(vs))
    return "def main(%s) -> field {\n%s    return %s;\n}\n" % (ps, text, " + ".join(rng.sample(vs, min(2, len(vs))))), n


def small(rng):
    p = rng.choice([chk_lang.c01, chk_lang.c03, chk_lang.c17, chk_lang.c12])(rng)
    p.depth, p.stmts, p.runs = 2, (0, 2), 2
    return p


def job(rng, seed):
    f = "bn128"
    if rng.random() < .35:
        f = rng.choice(list(PRIMES))
        g = IrGen("file-" + seed)
        ir = g.ir()
        # coefficients across the whole field
        k = PRIMES[f]
        wide = lambda x: {a: wide(b) for a, b in x.items()} if isinstance(x, dict) else [wide(y) for y in x] if isinstance(x, list) else \
            rng.choice([x, str(k - 1), str(rng.randrange(k))]) if isinstance(x, str) and x.isdigit() and rng.random() < .3 else x
        j = {"ir": wide(ir), "runs": [[str(rng.randrange(3)) for _ in range(g.nargs)] for _ in range(2)]}
    elif rng.random() < .5:
        src, n = asm(rng)
        runs = [[str(rng.choice([0, 1, 2, rng.randrange(PRIMES[f])])) for _ in range(n)] for _ in range(3)]
        j = {"src": src, "runs": runs}
    else:
        c = lang.make_case("file-" + seed, small)
        j = {"src": c.job["src"], "mods": c.job.get("mods", {}), "main": c.job.get("main", "main")}
        # raw inputs: as many as the program takes is not known here, so none (the program is not run)
        j["runs"] = []
    return dict(j, kind="file", f=f, debug=rng.random() < .5, picks=[rng.random() for _ in range(6)])


def lin(l, size):
    return [[v, list(int(k).to_bytes(size, "little"))] for v, k in l]


def st(s, size):
    t = dict(s)
    if s["t"] == "c":
        t.update(l=lin(s["l"], size), r=lin(s["r"], size), o=lin(s["o"], size))
    elif s["t"] == "d":
        t["i"] = [[lin(a, size), lin(b, size)] for a, b in s["i"]]
    elif s["t"] == "l":
        t["e"] = [[lin(x, size) for x in e] for e in s["e"]]
    else:
        t["b"] = [st(x, size) for x in s["b"]]
    return t


def session(i, j, x):
    size = SIZE[j["f"]]
    m = x["mem"]
    mem = dict(m["prog"], st=[st(s, size) for s in m["prog"]["st"]])
    seen = [{"none": y is None, "same": y == m} for y in x["seen"]]
    return {"id": i, "names": NAMES, "curve": CURVE[j["f"]], "mem": mem, "ops": x["ops"], "whole": x["whole"], "crashes": x["crashes"],
            "cuts": x["cuts"], "torn": x["torn"], "flips": x["flips"], "longer": x["longer"], "seen": seen, "saved": "ok" in x["saved"]}


def check(prop, tier, seed, r):
    t0, n = time.time(), 0
    while True:
        k = 80
        jobs = [job(random.Random("file-%s-%d-%d" % (seed, n, i)), "%s-%d-%d" % (seed, n, i)) for i in range(k)]
        res = vc.run_jobs(jobs, prop, tool=vc.ZKF)
        sessions = []
        for i, (j, x) in enumerate(zip(jobs, res)):
            if "panic" in x.get("saved", {}):
                r.violation("saving a program crashes: %s" % x["saved"]["panic"], {"job": j})
            elif x.get("compile") == "ok" and sum(len(o[1]) for o in x["ops"]) < 60000:
                sessions.append(session(i, j, x))
        lines, states, dist = vc.tlc_sessions("ZokFile", sessions, prop)
        r.add(states=dist, transitions=states, traces_validated_against_impl=len(sessions),
              crash_points=sum(len(s["crashes"]) for s in sessions), unconstrained=sum(not s["saved"] for s in sessions))
        r.sample({"src": jobs[0].get("src"), "ir": str(jobs[0].get("ir"))[:300], "f": jobs[0]["f"], "crashes": sessions[0]["crashes"][:5] if sessions else None})
        for l in lines:
            _, i, pc, at, what = l[2:].split("|", 4)
            r.violation("%s (%s %s)" % (what, pc, at), {"job": jobs[int(i)], "step": [pc, at]})
        n += 1
        if r.violations or time.time() - t0 > (25 if tier == "quick" else 600):
            break
