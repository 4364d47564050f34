"""C08: JSON inputs and outputs and the interface file, against Abi."""
import random
import time
import vc
from zval import limbs, next_prime, BN128


class World:
    def __init__(self, rng):
        self.rng = rng
        self.structs = []     # (name, params, [(member, type with sizes int or parameter name)])
        for i in range(rng.randrange(0, 4)):
            params = [rng.choice("MN")] if rng.random() < .4 else []
            names = rng.sample(["a", "b", "c", "x1", "zz", "y", "A", "m_0"], rng.choice([0, 1, 2, 2, 3, 4]) if rng.random() < .95 else 0)
            ms = [(n, self.ty(2, params, i)) for n in names]
            self.structs.append(("S%d" % i, [x for x in params if "'%s'" % x in str([t for _, t in ms])], ms))
        self.aliases = [("T%d" % i, self.ty(2, [], len(self.structs))) for i in range(rng.randrange(0, 2))]

    def size(self, params):
        r = self.rng
        return r.choice(params) if params and r.random() < .6 else r.choice([1, 1, 2, 2, 3, 0 if r.random() < .15 else 4])

    def ty(self, d, params, ns):
        r = self.rng
        k = r.randrange(10) if d else r.randrange(5)
        if k < 2:
            return ("f",)
        if k == 2:
            return ("b",)
        if k < 5:
            return ("u", r.choice([8, 16, 32, 64]))
        if k < 7:
            return ("a", self.ty(d - 1, params, ns), self.size(params))
        if k == 7:
            return ("t", [self.ty(d - 1, params, ns) for _ in range(r.choice([1, 2, 3, 0 if r.random() < .2 else 2]))])
        if ns:
            n, ps, _ = self.structs[r.randrange(ns)]
            return ("s", n, [self.size(params) for _ in ps])
        return ("f",)

    def conc(self, t, env=None):
        env = env or {}
        g = lambda n: env.get(n, n)
        k = t[0]
        if k in "fb":
            return {"k": k}
        if k == "u":
            return {"k": "u", "w": t[1]}
        if k == "a":
            return {"k": "a", "t": self.conc(t[1], env), "n": g(t[2])}
        if k == "t":
            return {"k": "t", "ts": [self.conc(x, env) for x in t[1]]}
        if k == "al":
            return self.conc(dict(self.aliases)[t[1]])
        _, ps, ms = [s for s in self.structs if s[0] == t[1]][0]
        args = [g(x) for x in t[2]]
        e = dict(zip(ps, args))
        return {"k": "s", "n": t[1], "g": args, "fs": [m for m, _ in ms], "ts": [self.conc(x, e) for _, x in ms]}


def src(t):
    k = t[0]
    if k == "f":
        return "field"
    if k == "b":
        return "bool"
    if k == "u":
        return "u%d" % t[1]
    if k == "a":
        d = ""
        while t[0] == "a":
            d += "[%s]" % t[2]
            t = t[1]
        return src(t) + d
    if k == "t":
        return "(%s%s)" % (", ".join(src(x) for x in t[1]), "," if len(t[1]) == 1 else "")
    if k == "al":
        return t[1]
    return t[1] + ("<%s>" % ", ".join(map(str, t[2])) if t[2] else "")


HEX = "0123456789abcdef"


def number(rng, v, style):
    if style == 0:
        return str(v)
    if style == 1:
        return "0x%x" % v
    if style == 2:
        return "0x%0*x" % (rng.randrange(1, 20), v)
    if style == 3:
        s = "%x" % v
        return "0x" + "".join(ch.upper() if rng.random() < .5 else ch for ch in s)
    return "0" * rng.randrange(1, 4) + str(v)


def chars(s):
    return [HEX.index(ch) if ch in HEX else HEX.index(ch.lower()) if ch in "ABCDEF" else 16 if ch == "x" else -1 for ch in s]


def document(rng, ty, p, mess):
    """a JSON value for ty; with probability mess, somewhere not one"""
    k = ty["k"]
    if rng.random() < mess:
        return rng.choice([None, 1, 0, True, "1", "0x01", [], ["1"], {}, {"a": "1"}, "", "true", "x", "-1", "0x", "1.5", 3.25, " 1", "0xg"])
    if k == "b":
        return rng.random() < .5
    if k in "fu":
        top = p if k == "f" else 1 << ty["w"]
        c = rng.randrange(12)
        v = 0 if c == 0 else top - 1 if c == 1 else rng.randrange(top) if c < 6 else rng.randrange(min(top, 300))
        if mess and rng.random() < mess:
            v = top + rng.choice([0, 1, top, rng.randrange(300)])
        return number(rng, v, rng.choice([0, 0, 0, 1, 1, 2, 3, 4]))
    if k == "s":
        items = [(n, document(rng, t, p, mess)) for n, t in zip(ty["fs"], ty["ts"])]
        if mess and rng.random() < mess and items:
            j = rng.randrange(4)
            if j == 0:
                items.pop(rng.randrange(len(items)))
            elif j == 1:
                items.append(("extra", "1"))
            elif j == 2:
                i = rng.randrange(len(items))
                items[i] = (items[i][0] + "_", items[i][1])
            else:
                items.append(items.pop(0))
        if rng.random() < .5:
            rng.shuffle(items)
        return dict(items)
    ts = [ty["t"]] * ty["n"] if k == "a" else ty["ts"]
    es = [document(rng, t, p, mess) for t in ts]
    if mess and rng.random() < mess:
        if es and rng.random() < .5:
            es.pop()
        else:
            es.append(rng.choice(es) if es else "1")
    return es


def tree(j):
    if j is None:
        return {"j": "z"}
    if isinstance(j, bool):
        return {"j": "b", "v": j}
    if isinstance(j, (int, float)):
        return {"j": "n"}
    if isinstance(j, str):
        return {"j": "s", "cs": chars(j)}
    if isinstance(j, list):
        return {"j": "a", "es": [tree(x) for x in j]}
    return {"j": "o", "ks": list(j), "vs": [tree(x) for x in j.values()]}


def type_tree(j):
    k = j["type"]
    co = j.get("components")
    if k == "array":
        return ["array", co["size"], type_tree(co)]
    if k == "tuple":
        return ["tuple", [type_tree(e) for e in co["elements"]]]
    if k == "struct":
        return ["struct", co["name"], co["generics"], [[m["name"], type_tree(m)] for m in co["members"]]]
    return [k]


def case(rng, k):
    w = World(rng)
    tys = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        t = ("al", rng.choice(w.aliases)[0]) if w.aliases and rng.random() < .2 else w.ty(3, [], len(w.structs))
        tys.append(t)
    names = ["p%d" % i for i in range(len(tys))]
    vis = [rng.choice(["private ", "public ", ""]) for _ in tys]
    perm = [rng.randrange(len(tys)) for _ in range(rng.choice([1, 1, 2, 3]))]
    text = ""
    for n, ps, ms in w.structs:
        text += "struct %s%s { %s }\n" % (n, "<%s>" % ", ".join(ps) if ps else "", " ".join("%s %s;" % (src(t), m) for m, t in ms))
    for n, t in w.aliases:
        text += "type %s = %s;\n" % (n, src(t))
    rt = [src(tys[i]) for i in perm]
    text += "def main(%s) -> %s {\n    return %s;\n}\n" % (
        ", ".join(v + src(t) + " " + n for v, t, n in zip(vis, tys, names)),
        rt[0] if len(rt) == 1 else "(%s)" % ", ".join(rt), names[perm[0]] if len(perm) == 1 else "(%s)" % ", ".join(names[i] for i in perm))
    cs = [w.conc(t) for t in tys]
    p = BN128 if k % 3 or "64" in str(cs) else next_prime(1 << rng.choice([68, 90, 125]))
    runs = []
    for i in range(10):
        mess = 0 if i < 4 else rng.choice([.02, .05, .2])
        doc = [document(rng, t, p, mess) for t in cs]
        if i >= 4 and rng.random() < .1:
            doc = doc[:-1] if rng.random() < .5 else doc + ["1"]
        runs.append(doc)
    job = {"kind": "prog", "f": "bn128" if p == BN128 else "fp:%d" % p, "src": text, "runs": runs}
    spec = {"p": limbs(p), "tys": cs, "names": names, "public": [v != "private " for v in vis], "perm": [i + 1 for i in perm]}
    return job, spec


def check(prop, tier, seed, r):
    t0, n = time.time(), 0
    while True:
        cases = [case(random.Random("abi-%s-%d-%d" % (seed, n, i)), i) for i in range(240)]
        jobs = [j for j, _ in cases]
        res = vc.run_jobs(jobs, prop)
        sessions = []
        for i, ((job, spec), x) in enumerate(zip(cases, res)):
            if x.get("compile") != "ok":
                r.violation("a program which returns its arguments does not compile: %s" % str(x)[:300], {"job": job, "observed": x})
                continue
            rr = []
            for doc, y in zip(job["runs"], x["runs"]):
                st = "ok" if y.get("ok") else {"inputs": "inputs", "exec": "exec"}.get(y.get("stage"), "panic")
                dec = "out" in y
                rr.append({"doc": tree(doc), "st": st, "enc": [limbs(int(v)) for v in y.get("enc", [])], "raw": [limbs(int(v)) for v in y.get("raw", [])],
                           "decoded": dec, "out": tree(y.get("out"))})
            abi = {"ins": [[a["name"], a["public"], type_tree(a)] for a in x["abi"]["inputs"]], "out": type_tree(x["abi"]["output"])}
            sessions.append(dict(spec, id=i, abi=abi, runs=rr))
        lines, states, dist = vc.tlc_sessions("Abi", sessions, prop)
        r.add(states=dist, transitions=states, traces_validated_against_impl=sum(len(s["runs"]) for s in sessions),
              rejected_documents=sum(1 for s in sessions for q in s["runs"] if q["st"] == "inputs"))
        r.sample({"src": jobs[1]["src"], "runs": str(jobs[1]["runs"][:2])[:300]})
        for l in lines:
            _, i, k, what, e = l[2:].split("|", 4)
            job = jobs[int(i)]
            r.violation("%s: %s" % (what, str(job["runs"][int(k) - 1])[:300]),
                        {"job": dict(job, runs=[job["runs"][int(k) - 1]]), "observed": res[int(i)]["runs"][int(k) - 1], "abi": res[int(i)]["abi"], "spec": e[:1500]})
        n += 1
        if r.violations or time.time() - t0 > (20 if tier == "quick" else 700):
            break
