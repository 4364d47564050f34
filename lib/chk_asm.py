"""C18: asm blocks, against ZokAsm."""
import itertools
import json
import random
import time
import vc
from irs import ir_spec, limbs
from zgen import BN128
from zval import bits


class AsmGen:
    def __init__(self, seed):
        self.rng = rng = random.Random("asm" + seed)
        self.big = rng.random() < .3
        self.p = BN128 if self.big else rng.choice([5, 5, 7, 7, 11])
        self.n = 0
        self.hints = 0
        self.most = 9 if self.big else {5: 4, 7: 3, 11: 3}[self.p]
        self.fns = []
        if rng.random() < .35:
            self.fn()
        self.ps = []
        left = 3 if self.p < 7 else 2
        while left > 0 and (not self.ps or rng.random() < .6):
            k = rng.choice([0, 0, 0, 2]) if left > 1 else 0
            self.ps.append({"n": self.name("a"), "k": k})
            left -= k or 1
        self.vis = [rng.choice(["private ", "public ", ""]) for _ in self.ps]
        scope = Scope()
        for q in self.ps:
            scope.add(q["n"], q["k"])
        self.body = self.block(scope, rng.randrange(1, 5), True)
        n = rng.randrange(1, 3)
        self.rets = [self.ret(scope) for _ in range(n)]

    def name(self, x):
        self.n += 1
        return "%s%d" % (x, self.n)

    def fn(self):
        ps = [self.name("x") for _ in range(self.rng.randrange(1, 3))]
        scope = Scope()
        for x in ps:
            scope.add(x, 0)
        body = self.block(scope, self.rng.randrange(1, 3), False)
        self.fns.append({"n": self.name("f"), "ps": ps, "body": body, "ret": self.lin(scope)})

    def ret(self, scope):
        r = self.rng
        arrs = [n for n, k in scope.vs.items() if k]
        if arrs and r.random() < .3:
            return {"e": "all", "n": r.choice(arrs), "_k": scope.vs[arrs[0]]} if len(set(scope.vs[a] for a in arrs)) == 1 else self.var(scope)
        return self.lin(scope) if r.random() < .6 else self.var(scope)

    def num(self):
        r = self.rng
        return {"e": "num", "v": limbs(r.choice([0, 1, 2, 3, self.p - 1, r.randrange(self.p)]) % self.p)}

    def pos(self, scope, k):
        """an index below k: a number, or made from a loop variable"""
        r = self.rng
        ls = [(n, lo, hi) for n, lo, hi in scope.loops if hi <= k]
        if ls and r.random() < .75:
            n, lo, hi = r.choice(ls)
            if r.random() < .2:
                return {"e": "rev", "n": n, "d": hi - 1}
            return {"e": "lv", "n": n, "d": r.choice([0, 0, 1]) if hi < k else 0}
        return {"e": "int", "v": r.randrange(k)}

    def var(self, scope, recent=False):
        r = self.rng
        vs = list(scope.vs.items())
        n, k = r.choice(vs[-3:] if recent or r.random() < .5 else vs)
        return {"e": "idx", "n": n, "i": self.pos(scope, k)} if k else {"e": "var", "n": n}

    def bin(self, o, a, b):
        return {"e": "bin", "o": o, "a": a, "b": b}

    def lin(self, scope, n=None):
        r = self.rng
        e = None
        for _ in range(n or r.choice([1, 1, 2, 2, 3])):
            t = self.num() if r.random() < .2 else self.var(scope)
            if r.random() < .35:
                t = self.bin("*", self.num(), t) if r.random() < .7 else self.bin("*", t, self.num())
            if r.random() < .1:
                t = {"e": "neg", "a": t}
            e = t if e is None else self.bin(r.choice("+++-"), e, t)
        return e

    def quad(self, scope):
        """linear forms and products which share a factor"""
        r = self.rng
        k = r.randrange(10)
        a = self.lin(scope, r.choice([1, 1, 2]))
        if r.random() < .05:
            # of degree three, unless a factor is known
            e = self.bin("*", self.var(scope), self.bin("*", self.var(scope), self.lin(scope, 1)))
            return self.bin("+", e, self.var(scope)) if r.random() < .5 else e
        if k < 3:
            return self.lin(scope)
        if k < 7:
            return self.bin("*", a, self.lin(scope, r.choice([1, 1, 2])))
        f = self.var(scope)
        e = self.bin(r.choice("+-"), self.bin("*", f, self.var(scope)), self.bin("*", *r.sample([self.var(scope), f], 2)))
        if r.random() < .5:
            e = self.bin(r.choice("+-"), e, self.lin(scope, 1))
        if r.random() < .3:
            e = self.bin("-", self.bin("+", self.var(scope), self.var(scope)), self.bin("*", self.bin("*", self.num(), f), self.var(scope)))
        return e

    def cond(self, scope, d):
        return {"o": self.rng.choice(["==", "==", "!=", "<", "<=", ">", ">="]), "a": self.known(self.hintx(scope, d), scope), "b": self.hintx(scope, d)}

    def known(self, e, scope):
        return e if "'var'" in str(e) or "'idx'" in str(e) else self.bin("+", e, self.var(scope))

    def amount(self, scope):
        r = self.rng
        if scope.loops and r.random() < .5:
            n, lo, hi = r.choice(scope.loops)
            return {"e": "lv", "n": n, "d": r.randrange(2)}
        return {"e": "int", "v": r.choice([0, 1, 1, 2, 3, bits(self.p) - 1, bits(self.p), bits(self.p) + 1, 300])}

    def hintx(self, scope, d=2):
        r = self.rng
        if d == 0 or r.random() < .2:
            return self.num() if r.random() < .25 else self.var(scope)
        k = r.randrange(12)
        while 8 <= k < 10 and not self.big:
            # the amounts are numbers of 32 bits, which need a prime of more than 66
            k = r.randrange(12)
        if k < 4:
            return self.bin(r.choice("+-**"), self.hintx(scope, d - 1), self.hintx(scope, d - 1))
        if k < 5:
            return self.bin("/", self.hintx(scope, d - 1), self.hintx(scope, d - 1))
        if k < 6:
            v = self.var(scope)
            return {"e": "if", "c": {"o": "==", "a": v, "b": {"e": "num", "v": []}}, "a": self.hintx(scope, d - 1), "b": self.bin("/", self.hintx(scope, d - 1), v)}
        if k < 8:
            return self.bin(r.choice("&|^"), self.hintx(scope, d - 1), self.hintx(scope, d - 1))
        if k < 9:
            return {"e": "sh", "o": r.choice(["<<", ">>"]), "a": self.hintx(scope, d - 1), "k": self.amount(scope)}
        if k < 10:
            return {"e": "pow", "a": self.hintx(scope, d - 1), "k": self.amount(scope) if not self.big else {"e": "int", "v": r.randrange(5)}}
        if k < 11:
            return {"e": "if", "c": self.cond(scope, d - 1), "a": self.hintx(scope, d - 1), "b": self.hintx(scope, d - 1)}
        return {"e": "neg", "a": self.hintx(scope, d - 1)}

    def target(self, scope, st, loop):
        """a variable to be given a value, declared before the block, or one which already has a value"""
        r = self.rng
        muts = [n for n in scope.vs if n in scope.muts]
        if muts and (r.random() < .25 or (loop and r.random() < .7)):
            n = r.choice(muts)
        elif r.random() < .3:
            n = self.name("v")
            xs = [self.num() if r.random() < .6 else self.lin(scope, 1) for _ in range(2)]
            st.append({"s": "arr", "n": n, "xs": xs})
            scope.add(n, 2, True)
        else:
            n = self.name("y")
            st.append({"s": "let", "n": n, "x": self.num() if r.random() < .6 else self.lin(scope, 1)})
            scope.add(n, 0, True)
        k = scope.vs[n]
        return {"e": "idx", "n": n, "i": self.pos(scope, k)} if k else {"e": "var", "n": n}

    def asm(self, scope, st, times):
        r = self.rng
        inner = []
        ts = []
        for _ in range(r.randrange(1, 4)):
            if self.hints + times > self.most or r.random() < .25:
                inner.append({"s": "con", "l": self.quad(scope), "r": self.lin(scope, 1)} if r.random() < .5 else
                             {"s": "con", "l": self.lin(scope), "r": self.quad(scope)})
                continue
            arrs = [n for n, k in scope.vs.items() if k and n in scope.muts]
            if arrs and not scope.loops and r.random() < .15 and self.hints + 2 <= self.most:
                n = r.choice(arrs)
                self.hints += 2
                inner.append({"s": "hints", "n": n, "xs": [self.hintx(scope, 1) for _ in range(2)]})
                inner.append({"s": "con", "l": {"e": "idx", "n": n, "i": {"e": "int", "v": 0}}, "r": self.quad(scope)})
                continue
            t = self.target(scope, st, times > 1)
            self.hints += times
            if r.random() < .3:
                # constrained assignment; its sides are read after the assignment
                x = self.quad(scope)
                inner += [{"s": "hint", "t": t, "x": x, "_both": True}, {"s": "con", "l": t, "r": x, "_hidden": True}]
                continue
            k = r.randrange(10)
            if k < 3:
                # consistent with a constraint
                x = self.quad(scope)
                inner += [{"s": "hint", "t": t, "x": x}, {"s": "con", "l": t, "r": x} if r.random() < .6 else {"s": "con", "l": x, "r": t}]
            elif k < 5:
                inner += [{"s": "hint", "t": t, "x": self.bin("&", self.hintx(scope, 1), {"e": "num", "v": [1]})},
                          {"s": "con", "l": self.bin("*", t, self.bin("-", t, {"e": "num", "v": [1]})), "r": {"e": "num", "v": []}}]
            elif k < 7:
                v = self.var(scope)
                inner += [{"s": "hint", "t": t, "x": {"e": "if", "c": {"o": "==", "a": v, "b": {"e": "num", "v": []}}, "a": self.num(), "b": self.bin("/", {"e": "num", "v": [1]}, v)}},
                          {"s": "con", "l": self.bin("*", self.bin("*", v, t), v) if r.random() < .1 else self.bin("*", v, t), "r": self.num() if r.random() < .5 else self.lin(scope, 1)}]
            else:
                inner.append({"s": "hint", "t": t, "x": self.hintx(scope)})
                if r.random() < .8:
                    inner.append({"s": "con", "l": self.bin("*", t, self.var(scope)), "r": self.quad(scope) if r.random() < .3 else self.lin(scope, 1)})
        st.append({"s": "asm", "b": inner})

    def block(self, scope, n, top, times=1):
        r = self.rng
        st = []
        for _ in range(n):
            k = r.randrange(20)
            if k < 2:
                x = self.name("z")
                st.append({"s": "let", "n": x, "x": self.quad(scope)})
                scope.add(x, 0)
            elif k < 3:
                x = self.name("z")
                st.append({"s": "let", "n": x, "x": {"e": "if", "c": {"o": "==", "a": self.known(self.lin(scope), scope), "b": self.lin(scope, 1)}, "a": self.lin(scope), "b": self.lin(scope)}})
                scope.add(x, 0)
            elif k < 4:
                muts = [m for m in scope.muts if m in scope.vs]
                if muts:
                    m = r.choice(muts)
                    t = {"e": "idx", "n": m, "i": self.pos(scope, scope.vs[m])} if scope.vs[m] else {"e": "var", "n": m}
                    st.append({"s": "set", "t": t, "x": self.lin(scope)})
            elif k < 6:
                st.append({"s": "assert", "c": {"o": r.choice(["==", "!=", "!="]), "a": self.known(self.lin(scope), scope), "b": self.lin(scope)}})
            elif k < 9 and top and self.fns and self.hints < self.most:
                x = self.name("z")
                st.append({"s": "call", "n": x, "f": 1, "xs": [self.lin(scope, r.choice([1, 1, 2])) for _ in self.fns[0]["ps"]]})
                scope.add(x, 0)
            elif k < 12 and top and times == 1 and self.hints + 2 <= self.most:
                v = self.name("i")
                lo, hi = r.choice([(0, 2), (0, 2), (0, 1), (1, 3), (0, 0)])
                inner = scope.child()
                inner.loops.append((v, lo, hi))
                b = self.block(inner, r.randrange(1, 3), False, max(hi - lo, 1))
                st.append({"s": "for", "n": v, "lo": lo, "hi": hi, "body": b})
            else:
                self.asm(scope, st, times)
        return st


class Scope:
    def __init__(self):
        self.vs, self.muts, self.loops = {}, [], []

    def add(self, n, k, mut=False):
        self.vs[n] = k
        if mut:
            self.muts.append(n)

    def child(self):
        s = Scope()
        s.vs, s.muts, s.loops = dict(self.vs), list(self.muts), list(self.loops)
        return s


def pos(e):
    if e["e"] == "int":
        return str(e["v"])
    if e["e"] == "rev":
        return "%d - %s" % (e["d"], e["n"])
    return e["n"] + (" + %d" % e["d"] if e["d"] else "")


def num(l):
    return str(sum(d * 10000 ** i for i, d in enumerate(l)))


def text(e):
    k = e["e"]
    if k == "num":
        return num(e["v"])
    if k == "var" or k == "all":
        return e["n"]
    if k == "idx":
        return "%s[%s]" % (e["n"], pos(e["i"]))
    if k == "bin":
        return "(%s %s %s)" % (text(e["a"]), e["o"], text(e["b"]))
    if k == "neg":
        return "(-%s)" % text(e["a"])
    if k == "pow":
        return "(%s ** (%s))" % (text(e["a"]), pos(e["k"]))
    if k == "sh":
        return "(%s %s (%s))" % (text(e["a"]), e["o"], pos(e["k"]))
    return "(%s ? %s : %s)" % (cond(e["c"]), text(e["a"]), text(e["b"]))


def cond(c):
    return "%s %s %s" % (text(c["a"]), c["o"], text(c["b"]))


def lines(ss, ind, fns, muts=True):
    out = []
    for s in ss:
        k = s["s"]
        if k == "let":
            out.append("field mut %s = %s;" % (s["n"], text(s["x"])))
        elif k == "arr":
            out.append("field[%d] mut %s = [%s];" % (len(s["xs"]), s["n"], ", ".join(map(text, s["xs"]))))
        elif k == "set":
            out.append("%s = %s;" % (text(s["t"]), text(s["x"])))
        elif k == "assert":
            out.append("assert(%s);" % cond(s["c"]))
        elif k == "call":
            out.append("field %s = %s(%s);" % (s["n"], fns[s["f"] - 1]["n"], ", ".join(map(text, s["xs"]))))
        elif k == "for":
            out.append("for u32 %s in %d..%d {" % (s["n"], s["lo"], s["hi"]))
            out += ["    " + l for l in lines(s["body"], "", fns)]
            out.append("}")
        elif k == "asm":
            out.append("asm {")
            for q in s["b"]:
                if q["s"] == "hint":
                    out.append("    %s %s %s;" % (text(q["t"]), "<==" if q.get("_both") else "<--", text(q["x"])))
                elif q["s"] == "hints":
                    out.append("    %s <-- [%s];" % (q["n"], ", ".join(map(text, q["xs"]))))
                elif not q.get("_hidden"):
                    out.append("    %s === %s;" % (text(q["l"]), text(q["r"])))
            out.append("}")
    return out


def source(g):
    t = ""
    for f in g.fns:
        t += "def %s(%s) -> field {\n%s\n    return %s;\n}\n" % (f["n"], ", ".join("field " + x for x in f["ps"]),
                                                                "\n".join("    " + l for l in lines(f["body"], "", g.fns)), text(f["ret"]))
    ps = ", ".join("%sfield%s %s" % (v, "[%d]" % q["k"] if q["k"] else "", q["n"]) for v, q in zip(g.vis, g.ps))
    ts = ["field[2]" if e["e"] == "all" else "field" for e in g.rets]
    rt = ts[0] if len(ts) == 1 else "(%s)" % ", ".join(ts)
    rv = text(g.rets[0]) if len(ts) == 1 else "(%s)" % ", ".join(map(text, g.rets))
    return t + "def main(%s) -> %s {\n%s\n    return %s;\n}\n" % (ps, rt, "\n".join("    " + l for l in lines(g.body, "", g.fns)), rv)


def ast(ss):
    out = []
    for s in ss:
        if s["s"] == "asm":
            out += s["b"]
        elif s["s"] == "for":
            out.append(dict(s, body=ast(s["body"])))
        else:
            out.append(s)
    return out


def prog(g):
    return {"p": limbs(g.p), "bits": bits(g.p), "small": not g.big, "ps": g.ps, "fns": [dict(f, body=ast(f["body"])) for f in g.fns], "body": ast(g.body), "rets": g.rets}


def batch(r, seed, n, k, budget):
    gens = [AsmGen("%s-%d-%d" % (seed, n, i)) for i in range(k)]
    jobs = []
    for g in gens:
        m = sum(q["k"] or 1 for q in g.ps)
        most = 30
        if g.p ** m <= most:
            runs = list(itertools.product(range(g.p), repeat=m))
        else:
            runs = sorted({tuple(g.rng.choice([0, 1, 2, g.p - 1, g.rng.randrange(g.p)]) % g.p for _ in range(m)) for _ in range(12 if not g.big else 8)})
        jobs.append({"kind": "prog", "f": "bn128" if g.big else "fp:%d" % g.p, "src": source(g), "main": "main", "want": ["ir"],
                     "runs": [{"raw": [str(x) for x in a]} for a in runs]})
    res = vc.run_jobs(jobs, "C18")
    sessions = []
    for i, (g, j, x) in enumerate(zip(gens, jobs, res)):
        enc = [[limbs(int(v)) for v in q["raw"]] for q in j["runs"]]
        s = {"id": i, "prog": prog(g), "compile": x["compile"], "ir": {}, "any": False, "budget": budget}
        if x["compile"] == "panic":
            r.violation("the compiler crashes: %s" % x["err"], {"job": j})
            continue
        if x["compile"] == "error":
            e = str(x["err"])
            if "Non-quadratic" in e:
                r.add(non_quadratic=1)
                continue
            if "ivision by zero" in e and '"/"' in json.dumps(s["prog"]):
                # a divisor which is the constant zero is reported even where it is not evaluated
                r.add(constant_zero_divisors=1)
                continue
            if "Assertion failed" not in e:
                r.violation("a program is rejected: %s" % e[:300], {"job": j})
                continue
            s["compile"] = "never"
            s["runs"] = [{"enc": e, "st": "none", "out": []} for e in enc]
        else:
            s["ir"] = ir_spec(x["ir"], g.p)[0]
            s["any"] = not g.big and x["nc"] < 60
            s["runs"] = []
            for e, y in zip(enc, x["runs"]):
                st = "ok" if y["ok"] else "fail" if y.get("stage") == "exec" else "panic"
                s["runs"].append({"enc": e, "st": st, "out": [limbs(int(v)) for v in y.get("raw", [])]})
        sessions.append(s)
        if len(r.cov["samples"]) < 3:
            r.sample({"program": j["src"], "p": g.p})
    sessions.sort(key=lambda s: -len(str(s["ir"])))
    lines_, states, dist = vc.tlc_sessions("ZokAsm", sessions, "C18")
    cnt = {"honest": 0, "proof": 0, "dead": 0, "bounded": 0}
    bad = []
    for l in lines_:
        if l.startswith("##"):
            cnt[l[2:].split("|")[0]] += 1
        else:
            bad.append(l[2:].split("|", 4))
    r.add(states=dist, transitions=states, traces_validated_against_impl=cnt["honest"], programs=len(sessions),
          satisfying_assignments=cnt["proof"], refuted=cnt["dead"], bounded_searches=cnt["bounded"])
    for _, i, run, why, a in sorted(bad, key=lambda b: len(jobs[int(b[1])]["src"])):
        i, run = int(i), int(run) - 1
        r.violation("%s (inputs %s)" % (why, jobs[i]["runs"][run]["raw"]), {"job": jobs[i], "run": run, "observed": (res[i].get("runs") or [res[i].get("err")] * 99)[run], "assignment": a, "f": jobs[i]["f"]})


def check(prop, tier, seed, r):
    t0, n = time.time(), 0
    while True:
        batch(r, seed, n, 600, 256 if tier == "quick" else 2048)
        n += 1
        if r.violations or time.time() - t0 > (30 if tier == "quick" else 600):
            break
