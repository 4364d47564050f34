"""C07: the optimiser of constraint programs, against IrOpt."""
import itertools
import time
from irs import *
import chk_ir


class IrGen:
    """random constraint programs as the code generator could emit them: every variable is defined before it is read"""

    def __init__(self, seed, p=None):
        self.rng = rng = random.Random("iropt" + seed)
        self.p = rng.choice([5, 5, 7, 7, 11, 13])
        if p:
            self.p = p
        self.nargs = rng.randrange(1, 4) if self.p < 11 else rng.randrange(1, 3)
        self.next = 1
        self.args = [[self.new(), rng.random() < .5] for _ in range(self.nargs)]
        self.vars = [a for a, _ in self.args]
        self.st, self.block, self.seen = [], False, []
        self.logs = rng.random() < .4
        self.blocks = rng.random() < .35
        for _ in range(rng.randrange(1, 9)):
            self.step(self.st)
        self.rc = rng.randrange(1, 3)
        outs = []
        for i in range(self.rc):
            l = self.lin() if rng.random() < .5 else [[rng.choice(self.vars), "1"]]
            outs.append(self.con([[0, "1"]], l, [[-i - 1, "1"]]) if rng.random() < .8 else self.con(self.lin(), self.lin(), [[-i - 1, "1"]]))
        self.st += outs

    def new(self):
        self.next += 1
        return self.next - 1

    def coef(self):
        r = self.rng
        return str(r.choice([1, 1, 1, 1, self.p - 1, 2, r.randrange(self.p)]))

    def lin(self, n=None):
        r = self.rng
        if n is None:
            n = r.choice([1, 1, 1, 2, 2, 3])
        l = []
        for _ in range(n):
            v = r.choice(self.vars[-4:] if r.random() < .6 else self.vars) if r.random() < .8 else 0
            l.append([v, self.coef()])
        if r.random() < .1 and self.vars:
            v = r.choice(self.vars)
            l += [[v, "1"], [v, str(self.p - 1)]]
        if r.random() < .04:
            l = []
        return l

    def const(self):
        return [[0, str(self.rng.randrange(self.p))]]

    def con(self, l, r, o):
        if self.rng.random() < .1:
            l, r = r, l
        s = {"t": "c", "l": l, "r": r, "o": o}
        return s

    def one(self, l):
        return [[[0, "1"]], l]

    def add(self, st, s):
        st.append(s)
        if s["t"] == "c":
            self.seen.append(s)

    def quad(self):
        r = self.rng
        return self.one(self.lin()) if r.random() < .7 else [self.lin(1), self.lin(1)]

    def step(self, st, inblock=False):
        r = self.rng
        k = r.randrange(100)
        if k < 22:
            v = self.new()
            c = self.coef() if r.random() < .15 else "1"
            l = self.const() if r.random() < .15 else self.lin()
            if c == "0":
                c = "1"
            self.add(st, self.con([[0, "1"]], l, [[v, c]]) if c == "1" else {"t": "c", "l": [[0, "1"]], "r": l, "o": [[v, "1"]]})
            self.vars.append(v)
        elif k < 38:
            v = self.new()
            self.add(st, self.con(self.lin(), self.lin(), [[v, "1"]]))
            self.vars.append(v)
        elif k < 52:
            # assertions: mostly ones which can hold
            kind = r.randrange(5)
            if kind == 0:
                self.add(st, self.con([[0, "1"]], self.lin(), self.lin()))
            elif kind == 1:
                self.add(st, self.con(self.lin(), self.lin(), self.lin()))
            elif kind == 2:
                v = r.choice(self.vars)
                self.add(st, self.con([[v, "1"]], [[v, "1"]], [[v, "1"]]))
            elif kind == 3:
                self.add(st, self.con([[0, "1"]], self.lin(), [[r.choice(self.vars), "1"]]))
            else:
                v, w = r.choice(self.vars), r.choice(self.vars)
                self.add(st, self.con([[v, "1"]], [[0, "1"], [v, str(self.p - 1)]], []))
        elif k < 60 and self.seen:
            # again, verbatim or in another form
            s = r.choice(self.seen)
            kind = r.randrange(4)
            if kind == 0:
                self.add(st, dict(s))
            elif kind == 1:
                self.add(st, {"t": "c", "l": s["r"], "r": s["l"], "o": s["o"]})
            elif kind == 2:
                self.add(st, {"t": "c", "l": [[v, str(int(c) * 2 % self.p)] for v, c in s["l"]], "r": s["r"],
                              "o": [[v, str(int(c) * 2 % self.p)] for v, c in s["o"]]})
            else:
                self.add(st, {"t": "c", "l": s["l"], "r": list(reversed(s["r"])), "o": list(reversed(s["o"]))})
        elif k < 65:
            l = self.lin()
            self.add(st, self.con([[0, "1"]], l, list(l)))
        elif k < 70 and self.logs and not inblock:
            st.append({"t": "l", "e": [self.lin() for _ in range(r.randrange(1, 3))]})
        elif k < 76 and self.blocks and not inblock:
            self.block = True
            b = []
            for _ in range(r.randrange(1, 5)):
                self.blockstep(b)
            st.append({"t": "b", "b": b})
        else:
            self.directive(st)

    def input(self):
        r = self.rng
        return self.one(self.const()) if r.random() < .25 else self.quad()

    def repeat_directive(self, st):
        ds = [s for s in st if s["t"] == "d"]
        return self.rng.choice(ds) if ds and self.rng.random() < .3 else None

    def directive(self, st):
        r = self.rng
        old = self.repeat_directive(st)
        s = old["s"] if old else r.choice(["Bits", "ConditionEq", "ConditionEq", "Div", "Xor", "Or", "EuclideanDiv"])
        if not old and s == "Bits":
            s = "Bits(%d)" % r.randrange(1, 4)
        n = {"ConditionEq": (1, 2), "Div": (2, 1), "Xor": (2, 1), "Or": (2, 1), "EuclideanDiv": (2, 2)}.get(s) or (1, int(s[5:-1]))
        ins = old["i"] if old else [self.input() for _ in range(n[0])]
        outs = [self.new() for _ in range(n[1])]
        st.append({"t": "d", "s": s, "i": ins, "o": outs})
        self.vars += outs
        full = r.random() < .8
        lin1 = [i[1] for i in ins] if all(i[0] == [[0, "1"]] for i in ins) else None
        if s.startswith("Bits"):
            if full:
                for o in outs:
                    self.add(st, self.con([[o, "1"]], [[o, "1"]], [[o, "1"]]))
            if lin1 and r.random() < .8:
                w = len(outs)
                total = [[o, str(pow(2, w - 1 - i, self.p))] for i, o in enumerate(outs)]
                self.add(st, self.con([[0, "1"]], total, lin1[0]))
        elif s == "ConditionEq" and lin1 and full:
            y, m = outs
            self.add(st, self.con(lin1[0], [[m, "1"]], [[y, "1"]]))
            self.add(st, self.con([[0, "1"], [y, str(self.p - 1)]], lin1[0], []))
        elif s in ("Div", "EuclideanDiv") and lin1 and full:
            o = list(lin1[0]) + ([[outs[1], str(self.p - 1)]] if s == "EuclideanDiv" else [])
            self.add(st, self.con([[outs[0], "1"]], lin1[1], o))
        elif s in ("Xor", "Or") and lin1 and full:
            a, b = lin1
            k = self.p - 2 if s == "Xor" else self.p - 1
            # -2ab == out - a - b
            neg = [[v, str((self.p - int(c)) % self.p)] for v, c in a + b]
            self.add(st, self.con([[v, str(int(c) * k % self.p)] for v, c in a], b, [[outs[0], "1"]] + neg))

    def blockstep(self, st):
        r = self.rng
        if r.random() < .15:
            # a value which is pinned down only after it was read
            o = self.new()
            i = self.lin()
            st.append({"t": "d", "s": "Div", "i": [self.one(i), self.one([[0, "1"]])], "o": [o]})
            self.vars.append(o)
            for _ in range(r.randrange(0, 3)):
                self.blockstep(st)
            self.add(st, self.con([[0, "1"]], i, [[o, "1"]]))
            return
        if r.random() < .5:
            s = r.choice(["Div", "Xor", "Or"])
            o = self.new()
            st.append({"t": "d", "s": s, "i": [self.input() for _ in range(2)], "o": [o]})
            self.vars.append(o)
            k = r.randrange(6)
            if k == 0:
                pass
            elif k == 1:
                self.add(st, self.con([[0, "1"]], self.lin(), [[o, "1"]]))
            elif k == 2:
                self.add(st, self.con(self.lin(), self.lin(), [[o, "1"]]))
            elif k == 3:
                self.add(st, self.con([[0, "1"]], self.lin() + [[o, self.coef()]], [[o, "1"]]))
            elif k == 4:
                i = st[-1]["i"]
                self.add(st, self.con(i[0][1], i[1][1], [[o, "1"]]))
            else:
                self.add(st, self.con([[o, "1"]], self.lin(1), self.lin()))
        elif r.random() < .2:
            self.directive(st)
        else:
            self.step(st, True)

    def ir(self):
        return {"args": self.args, "rc": self.rc, "st": self.st}


def session(i, raw, opt, p, encs, runs, block, budget):
    num = {0: 1}
    w, _ = ir_spec(raw, p, num, True)
    o, _ = ir_spec(opt, p, num, True)
    w["n"] = o["n"] = len(num)
    rr = []
    for e, x in zip(encs, runs):
        rr.append({"enc": [limbs(int(v)) for v in e], "st": x["st"], "out": [limbs(int(v)) for v in x.get("out", [])]})
    return {"id": i, "raw": w, "opt": o, "block": block, "budget": budget, "runs": rr}


def encodings(rng, p, n, most):
    if p ** n <= most:
        return [[str(x) for x in e] for e in itertools.product(range(p), repeat=n)]
    return [[str(rng.randrange(p)) for _ in range(n)] for _ in range(most)]


def judge(r, sessions, name):
    lines, states, dist = vc.tlc_sessions("IrOpt", sessions, name)
    cnt = {"honest": 0, "proof": 0, "dead": 0, "bounded": 0}
    bad = []
    for l in lines:
        if l.startswith("##"):
            cnt[l[2:].split("|")[0]] += 1
        else:
            bad.append(l[2:].split("|", 4))
    r.add(states=dist, transitions=states, traces_validated_against_impl=cnt["honest"], programs=len(sessions),
          satisfying_assignments=cnt["proof"], refuted=cnt["dead"], bounded_searches=cnt["bounded"])
    return bad


def batch(r, seed, n, k1, k2, budget):
    # programs of the generator of constraints
    gens = [IrGen("%s-%d-%d" % (seed, n, i)) for i in range(k1)]
    jobs, encs = [], []
    for g in gens:
        e = encodings(g.rng, g.p, g.nargs, 25)
        encs.append(e)
        jobs.append({"kind": "opt", "f": "fp:%d" % g.p, "ir": g.ir(), "runs": e})
    res = vc.run_jobs(jobs, "C07")
    sessions = []
    for i, (g, x) in enumerate(zip(gens, res)):
        if x.get("opt") != "ok":
            r.violation("the optimiser crashes: %s" % x.get("err"), {"job": jobs[i], "observed": x})
            continue
        sessions.append(session(i, g.ir(), x["ir"], g.p, encs[i], x["runs"], g.block, budget))
        if len(r.cov["samples"]) < 2:
            r.sample({"p": g.p, "before": str(g.st)[:600], "after": str(x["ir"]["st"])[:600]})
    bad = judge(r, sessions, "C07")
    for _, i, run, why, a in sorted(bad, key=lambda b: len(str(gens[int(b[1])].st))):
        i, run = int(i), int(run) - 1
        r.violation("%s (inputs %s): %s" % (why, encs[i][run], a[:200]), {"job": jobs[i], "run": encs[i][run], "observed": res[i]["runs"][run], "optimised": res[i]["ir"]})
    if bad:
        return True
    # compiled programs before and after
    cases = []
    for k in range(k2):
        c = make_case("C07-%s-%d-%d" % (seed, n, k), chk_ir.tiny if k % 3 else chk_ir.small_comps)
        rng = random.Random("x" + c.seed)
        chk_ir.prepare(c, rng, 20, None)
        c.job["want"] = ["ir", "iraw", "wit"]
        cases.append(c)
    res = vc.run_jobs([c.job for c in cases], "C07")
    sessions = []
    for i, (c, x) in enumerate(zip(cases, res)):
        if x.get("compile") == "ok" and x.get("iraw") and x["nc"] <= 200:
            es = [q["raw"] for q in c.job["runs"]]
            runs = [{"st": "ok" if y["ok"] else "fail" if y["stage"] == "exec" else "panic", "out": y.get("raw", [])} for y in x["runs"]]
            sessions.append(session(i, x["iraw"], x["ir"], c.g.pf.p, es, runs, False, budget))
    bad = judge(r, sessions, "C07")
    for _, i, run, why, a in sorted(bad, key=lambda b: len(cases[int(b[1])].text["main"])):
        c = cases[int(i)]
        r.violation("%s (compiled): %s" % (why, a[:200]), {"seed": c.seed, "job": c.job, "run": c.job["runs"][int(run) - 1], "text": c.text})
    return bool(r.violations)


def check(prop, tier, seed, r):
    t0 = time.time()
    n = 0
    while True:
        stop = batch(r, seed, n, 1500, 300, 200 if tier == "quick" else 2000)
        n += 1
        if stop or (tier == "quick" and time.time() - t0 > 35) or time.time() - t0 > 700:
            break
