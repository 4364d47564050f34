"""C14: the fields of the curves, against Field."""
import random
import time
import vc
from zval import limbs

PRIMES = {
    "bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bls12_381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "bls12_377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
    "bw6_761": 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177,
    "pallas": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
    "vesta": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
}
NAMES = {k: k for k in PRIMES}
SIZE = {k: 48 if k == "bw6_761" else 32 for k in PRIMES}
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


def element(rng, p):
    b = p.bit_length()
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, 2, p - 1, p - 2, p // 2, p // 2 + 1, p // 2 - 1, p // 4])
    if k == 1:
        return min(p - 1, max(0, (1 << rng.randrange(b)) + rng.randrange(-2, 3)))
    if k == 2:
        return rng.getrandbits(rng.randrange(1, b - 1))
    if k == 3:
        return p - 1 - rng.getrandbits(rng.randrange(1, b - 2))
    if k == 4:
        # limbs of ones and zeros
        x = 0
        for i in range(0, b, 64):
            x |= rng.choice([0, (1 << 64) - 1, 1, 1 << 63]) << i
        return x % p
    return rng.randrange(p)


def text(rng, p, radix):
    k = rng.randrange(10)
    v = p + rng.randrange(3) if k == 0 else p * rng.randrange(1, 9) + element(rng, p) if k == 1 else element(rng, p)
    s = ""
    while v:
        s = DIGITS[v % radix] + s
        v //= radix
    s = s or "0"
    if k == 2:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice("- gz.x") + s[i + rng.randrange(2):]
    return s


def digits(s):
    return [DIGITS.index(ch) if ch in DIGITS else -1 for ch in s]


def raw_bytes(rng, p, n):
    k = rng.randrange(6)
    x = p + rng.randrange(3) if k == 0 else rng.getrandbits(8 * n) if k == 1 else (1 << (8 * n)) - 1 - rng.randrange(3) if k == 2 else element(rng, p)
    return list((x % (1 << (8 * n))).to_bytes(n, "little"))


UNARY = ["inv", "bits", "bytes", "rw", "ser", "dec", "cdec", "big", "isz"]
BINARY = ["add", "addr", "sub", "subr", "mul", "mulr", "div", "divr", "cdiv", "cadd", "cmul", "cmp"]
CONST = ["min", "max", "maxu", "zero", "one"]
REGS = 4


def cbor_bytes(b):
    return ([0x40 + len(b)] if len(b) < 24 else [0x58, len(b)]) + b


def trace(rng, curve, n):
    p = PRIMES[curve]
    init = [element(rng, p) for _ in range(REGS)]
    steps, spec = [], []
    small = (1 << (p.bit_length() - 1)) - 1
    reg = list(init)     # only to choose operands
    for _ in range(n):
        to = rng.randrange(REGS)
        a, b = rng.randrange(REGS), rng.randrange(REGS)
        k = rng.randrange(20)
        o = {"a": 0, "b": 0, "to": to + 1}
        if k < 9:
            op = rng.choice(BINARY)
            if op in ("cadd", "cmul") and (reg[a] > small or reg[b] > small):
                op = op[1:]
            st = [op, a, b, to]
            o.update(a=a + 1, b=b + 1)
        elif k < 13:
            op = rng.choice(UNARY)
            st = [op, a, to]
            o.update(a=a + 1)
        elif k == 13:
            op, e = "pow", rng.choice([0, 1, 2, 3, rng.getrandbits(8), rng.getrandbits(32), rng.getrandbits(64), (1 << 64) - 1])
            st = [op, a, str(e), to]
            o.update(a=a + 1, n=limbs(e))
        elif k == 14:
            op, radix = rng.choice([("parse", 10), ("parser", 10), ("parser", 16), ("parser", 2)])
            s = text(rng, p, radix)
            st = [op, s, to] if op == "parse" else [op, s, radix, to]
            o.update(ds=digits(s), radix=radix)
        elif k == 15:
            op, bs = "frombytes", raw_bytes(rng, p, SIZE[curve])
            st = [op, bs, to]
            o.update(bytes=bs)
        elif k == 16:
            op, bs = "de", raw_bytes(rng, p, SIZE[curve])
            if rng.random() < .1:
                bs = bs[:-1]
            st = [op, cbor_bytes(bs), to]
            o.update(bytes=bs)
        elif k == 17:
            op = "from"
            t = rng.choice(["u8", "u16", "u32", "u64", "u128", "usize", "bool", "i32"])
            w = {"bool": 1, "usize": 64, "i32": 31}.get(t) or int(t[1:])
            x = rng.choice([0, 1, (1 << w) - 1, rng.getrandbits(w)])
            neg = t == "i32" and x > 0 and rng.random() < .6
            st = [op, t, ("-" if neg else "") + str(x), to]
            o.update(n=limbs(x), neg=neg)
        elif k == 18:
            op = rng.choice(CONST)
            st = [op, to]
        else:
            op = "frombig"
            x = p + rng.randrange(2) if rng.random() < .2 else element(rng, p)
            st = [op, str(x), to]
            o.update(n=limbs(x))
        o["op"] = op
        steps.append(st)
        spec.append(o)
        # operands of the checked operations stay small enough with high probability
        if rng.random() < .3:
            v = element(rng, p) if rng.random() < .5 else rng.getrandbits(rng.choice([8, 60, 100, p.bit_length() // 2]))
            t2 = rng.randrange(REGS)
            steps.append(["frombig", str(v), t2])
            spec.append({"a": 0, "b": 0, "to": t2 + 1, "op": "frombig", "n": limbs(v)})
            reg[t2] = v
        reg[to] = p
    return init, steps, spec


def number(s):
    """a canonical decimal string as a number, anything else as nothing"""
    return limbs(int(s)) if s.isdigit() and (s == "0" or s[0] != "0") else [10002]


def observed(o, x):
    o["v"] = number(x["v"]) if "v" in x else [10000]
    s = x["seen"]
    if s == "panic":
        o["v"] = [10003]
        s = None
    op = o["op"]
    o["seen"] = 0
    if s is None:
        pass
    elif op == "cmp":
        o["seen"] = {"lt": s[0], "eq": s[1], "sg": s[2]}
    elif op == "bits":
        o["seen"] = {"n": s[0], "bits": s[1]}
    elif op == "bytes":
        o["seen"] = s
    elif op == "ser":
        o["seen"] = s[2:] if s[:2] == [0x58, len(s) - 2] else []
    elif op == "dec":
        o["seen"] = [number(t) for t in s]
    elif op == "cdec":
        o["seen"] = {"neg": s.startswith("(-"), "n": number(s[2:-1] if s.startswith("(-") and s.endswith(")") else s)}
    elif op == "big":
        o["seen"] = number(s)
    elif op == "isz":
        o["seen"] = {"z": s[0], "n": s[1]}
    return o


def check(prop, tier, seed, r):
    t0 = time.time()
    n = 0
    while True:
        jobs, specs = [], []
        for i in range(48):
            for curve in PRIMES:
                rng = random.Random("fld-%s-%d-%d-%s" % (seed, n, i, curve))
                init, steps, spec = trace(rng, curve, 60)
                jobs.append({"kind": "field", "f": curve, "init": [str(x) for x in init], "steps": steps})
                specs.append((curve, init, spec))
        res = vc.run_jobs(jobs, prop)
        sessions = []
        for i, ((curve, init, spec), x) in enumerate(zip(specs, res)):
            if "out" not in x:
                r.violation("the field of %s crashes: %s" % (curve, str(x)[:200]), {"job": jobs[i], "observed": x})
                continue
            sessions.append({"id": i, "p": limbs(PRIMES[curve]), "size": SIZE[curve], "init": [limbs(v) for v in init],
                             "steps": [observed(o, y) for o, y in zip(spec, x["out"])]})
            if x["name"] != curve:
                r.violation("the field of %s is called %s" % (curve, x["name"]), {"job": jobs[i]})
        lines, states, dist = vc.tlc_sessions("Field", sessions, prop)
        r.add(states=dist, transitions=states, traces_validated_against_impl=len(sessions))
        if not r.cov["samples"]:
            r.sample({"job": {k: str(v)[:500] for k, v in jobs[0].items()}})
        for l in lines:
            _, i, k, what, exp, regs = l[2:].split("|", 5)
            j = jobs[int(i)]
            r.violation("step %s of a trace over %s: %s, expected %s" % (k, j["f"], str(j["steps"][int(k) - 1])[:200], exp[:200]),
                        {"job": j, "step": int(k), "observed": res[int(i)]["out"][int(k) - 1], "spec": what[:1000], "registers": regs})
        n += 1
        if r.violations or time.time() - t0 > (15 if tier == "quick" else 700):
            break
