"""Random well-typed ZoKrates programs: abstract syntax for the specification, text for the compiler."""
import contextlib
import posixpath
import random
from zval import *

F, B = ("f",), ("b",)
U8, U16, U32, U64 = ("u", 8), ("u", 16), ("u", 32), ("u", 64)


# the names by which the module being generated or printed knows structs and aliases
NAMES = {}


def local(n):
    return NAMES.get(n, n)


# ---------------------------------------------------------------- abstract syntax
def num(t, v):
    return {"e": "num", "t": {"k": "f"} if t == F else {"k": "u", "w": t[1]}, "v": limbs(v), "_v": v}


def boolean(v):
    return {"e": "bool", "v": v}


def var(n):
    return {"e": "var", "n": n}


def integer(v):
    return {"e": "int", "v": v} if isinstance(v, int) else var(v)


def bin_(o, a, b):
    return {"e": "bin", "o": o, "a": a, "b": b}


def ty_ast(t):
    k = t[0]
    if k in "fb":
        return {"k": k}
    if k == "u":
        return {"k": "u", "w": t[1]}
    if k == "arr":
        return {"k": "arr", "t": ty_ast(t[1]), "n": integer(t[2])}
    if k == "tup":
        return {"k": "tup", "ts": [ty_ast(x) for x in t[1]]}
    if k == "al":
        return {"k": "st", "n": local(t[1]), "g": []}
    return {"k": "st", "n": local(t[1]), "g": [integer(x) for x in t[2]]}


# ---------------------------------------------------------------- text
def ty_src(t):
    k = t[0]
    if k == "f":
        return "field"
    if k == "b":
        return "bool"
    if k == "u":
        return "u%d" % t[1]
    if k == "arr":
        dims = []
        while t[0] == "arr":
            dims.append("[%s]" % t[2])
            t = t[1]
        return ty_src(t) + "".join(dims)
    if k == "tup":
        return "(%s%s)" % (", ".join(ty_src(x) for x in t[1]), "," if len(t[1]) == 1 else "")
    if k == "al":
        return local(t[1])
    return local(t[1]) + ("<%s>" % ", ".join(str(x) for x in t[2]) if t[2] else "")


PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "|": 4, "^": 5, "&": 6,
        "<<": 7, ">>": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}
# mixes on which the documentation's table and the parser disagree: always parenthesised
AMBIGUOUS = {"|", "^"}


def lit_src(e, bare):
    v, t = e["_v"], e["t"]
    st = e.get("_style", 0)
    if t["k"] == "f":
        return str(v) if bare else "%df" % v
    w = t["w"]
    if bare:
        return str(v)
    return "0x%0*x" % (w // 4, v) if st == 0 else "%du%d" % (v, w)


class Src:
    """prints expressions; full=True puts parentheses everywhere"""

    def __init__(self, full=False, bare=True):
        self.full = full
        self.bare = bare

    def ex(self, e, prec=0, bare=False):
        k = e["e"]
        if k == "num":
            return lit_src(e, bare and self.bare)
        if k == "int":
            return str(e["v"])
        if k == "bool":
            return "true" if e["v"] else "false"
        if k == "var":
            return e["n"]
        if k == "un":
            a = e["a"]
            # a unary operator applies to a power or a postfix expression
            if a["e"] in ("var", "num", "bool", "call", "idx", "mem", "tel") and not self.full:
                s = self.ex(a)
            elif a["e"] == "bin" and a["o"] == "**" and not self.full:
                s = self.ex(a, 10)
            else:
                s = "(%s)" % self.ex(a)
            s = e["o"] + s
            return "(%s)" % s if self.full or prec >= 10 else s
        if k == "bin":
            o, a, b = e["o"], e["a"], e["b"]
            if o == "**":
                x = self.ex(a) if a["e"] in ("var", "num") else "(%s)" % self.ex(a)
                y = self.ex(b, 0, True) if b["e"] in ("var", "num") else "(%s)" % self.ex(b)
                s = "%s ** %s" % (x, y)
                return "(%s)" % s if self.full or prec > 10 else s
            p = PREC[o]
            typed_a = not self.lit(a)
            typed_b = not self.lit(b)
            if o in ("<<", ">>"):
                typed_a = False
            s = "%s %s %s" % (self.sub(a, p, o, typed_b and o not in ("<<", ">>")), o, self.sub(b, p + 1, o, typed_a or o in ("<<", ">>")))
            return "(%s)" % s if self.full or p < prec else s
        if k == "if":
            if e.get("_t"):
                s = "%s ? %s : %s" % (self.ex(e["c"], 1), self.ex(e["a"], 1), self.ex(e["b"], 1))
                return "(%s)" % s
            s = "if %s { %s } else { %s }" % (self.ex(e["c"]), self.ex(e["a"]), self.ex(e["b"]))
            return "(%s)" % s if prec > 0 or self.full else s
        if k == "arr":
            return "[%s]" % ", ".join(("..." if x["sp"] else "") + self.ex(x["x"]) for x in e["xs"])
        if k == "rep":
            return "[%s; %s]" % (self.ex(e["x"]), self.ex(e["n"]))
        if k == "tup":
            return "(%s%s)" % (", ".join(self.ex(x) for x in e["xs"]), "," if len(e["xs"]) == 1 else "")
        if k == "st":
            return "%s { %s }" % (e["n"], ", ".join("%s: %s" % (f["n"], self.ex(f["x"])) for f in e["fs"]))
        if k == "idx":
            return "%s[%s]" % (self.post(e["a"]), self.ex(e["i"], 0, True))
        if k == "slice":
            g = lambda x: "" if x["e"] == "none" else self.ex(x, 0, True)
            return "%s[%s..%s]" % (self.post(e["a"]), g(e["lo"]), g(e["hi"]))
        if k == "mem":
            return "%s.%s" % (self.post(e["a"]), e["f"])
        if k == "tel":
            return "%s.%d" % (self.post(e["a"]), e["i"])
        if k == "call":
            g = "::<%s>" % ", ".join("_" if x["e"] == "none" else self.ex(x) for x in e["g"]) if e["g"] else ""
            return "%s%s(%s)" % (e["n"], g, ", ".join(self.ex(x) for x in e["xs"]))
        raise Exception(k)

    @staticmethod
    def lit(e):
        return e["e"] in ("num", "int") or (e["e"] == "un" and e["a"]["e"] == "num") or e["e"] == "bin" or e["e"] == "if"

    def sub(self, e, p, parent, bare):
        if e["e"] == "bin" and (e["o"] in AMBIGUOUS or parent in AMBIGUOUS or (PREC.get(e["o"]) == 3 and PREC[parent] == 3)) and e["o"] != parent:
            return "(%s)" % self.ex(e)
        return self.ex(e, p, bare)

    def post(self, e):
        s = self.ex(e)
        return s if e["e"] in ("var", "idx", "mem", "tel", "call", "slice") else "(%s)" % s

    def stmt(self, s, ind="\t"):
        k = s["s"]
        if k == "let":
            return "%s%s %s%s = %s;\n" % (ind, ty_src(s["_ty"]), "mut " if s.get("mut") else "", s["n"], self.ex(s["x"]))
        if k == "set":
            path = ""
            for q in s["path"]:
                path += "[%s]" % self.ex(q["x"], 0, True) if q["k"] == "i" else (".%s" % q["f"] if q["k"] == "m" else ".%d" % q["i"])
            return "%s%s%s = %s;\n" % (ind, s["n"], path, self.ex(s["x"]))
        if k == "assert":
            return "%sassert(%s%s);\n" % (ind, self.ex(s["x"]), ', "%s"' % s["msg"] if s.get("msg") else "")
        if k == "log":
            return '%slog("%s", %s);\n' % (ind, "{}".join(s["fmt"]), ", ".join(self.ex(x) for x in s["xs"]))
        if k == "for":
            return "%sfor u32 %s in %s..%s {\n%s%s}\n" % (
                ind, s["n"], self.ex(s["lo"], 0, True), self.ex(s["hi"], 0, True),
                "".join(self.stmt(x, ind + "\t") for x in s["body"]), ind)
        if k == "ret":
            return "%sreturn %s;\n" % (ind, self.ex(s["x"]))
        raise Exception(k)

    def fn(self, f):
        ps = ", ".join("%s%s %s%s" % (p.get("vis", ""), ty_src(p["_ty"]), "mut " if p.get("mut") else "", p["n"]) for p in f["ps"])
        g = "<%s>" % ", ".join(f["gen"]) if f["gen"] else ""
        return "def %s%s(%s) -> %s {\n%s}\n" % (f["n"], g, ps, ty_src(f["_ret"]), "".join(self.stmt(s) for s in f["body"]))

    def module(self, m):
        out = []
        for i in m["imp"]:
            if i.get("_main"):
                out.append('import "%s"%s;\n' % (i["_path"], " as " + i["n"] if i["n"] != i["_base"] else ""))
            else:
                out.append('from "%s" import %s%s;\n' % (i["_path"], i["x"], " as " + i["n"] if i["n"] != i["x"] else ""))
        decls = []
        for s in m["structs"]:
            decls.append("struct %s%s {\n%s}\n" % (s["n"], "<%s>" % ", ".join(s["gen"]) if s["gen"] else "",
                         "".join("\t%s %s;\n" % (ty_src(f["_ty"]), f["n"]) for f in s["fs"])))
        for t in m["types"]:
            decls.append("type %s = %s;\n" % (t["n"], ty_src(t["_ty"])))
        for c in m["consts"]:
            decls.append("const %s %s = %s;\n" % (ty_src(c["_ty"]), c["n"], self.ex(c["x"])))
        for f in m["fns"]:
            decls.append(self.fn(f))
        return "".join(out) + "".join(decls)


def strip(x):
    """the AST without the printer's annotations"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


# ---------------------------------------------------------------- generation
class Profile:
    def __init__(self, **kw):
        self.p = BN128
        self.scalars = [F, B, U8, U16, U32]
        self.depth = 3
        self.stmts = (0, 0)
        self.fns = 0
        self.composites = False
        self.loops = False
        self.asserts = False
        self.logs = False
        self.structs = 0
        self.consts = 0
        self.generics = False
        self.division = 0.3
        self.mul = True
        self.dyn_index = 0.15
        self.dyn_len = 4
        self.shadow = 0.1
        self.lit = 0.3
        self.cmp_field = True
        self.inputs = (1, 3)
        self.runs = 6
        self.modules = 1
        self.full_parens = 0.3
        self.aliases = 0
        self.max_len = 3
        self.__dict__.update(kw)


class Ctx:
    def __init__(self, gen, mod):
        self.g = gen
        self.mod = mod
        self.scopes = [[]]  # (name, ty, mut, kind)
        self.sizes = {}  # generic name -> None

    def vars(self):
        seen = set()
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v[0] not in seen:
                    seen.add(v[0])
                    yield v


def pf_pow(pf):
    """exponents and shifts are u32 values, which small fields do not support"""
    return pf.p > MIN_P[32]


class Gen:
    def __init__(self, rng, prof):
        self.rng = rng
        self.pf = prof
        self.w = World()
        self.n = 0
        self.mods = {}
        self.reads = set()
        self.uses_w = 0
        self.nodes = 0
        self.trips, self.in_loop = 1, 0
        self.in_const = False
        self.no_slice = False
        self.cur = "main"
        self.visible = {}
        self.exports = {}
        self.paths = {}
        self.used_fns = []

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pick(self, *xs):
        return self.rng.choice(xs)

    # ------------------------------------------------ types
    def scalar(self):
        return self.rng.choice(self.pf.scalars)

    def ty(self, depth=2):
        pf = self.pf
        if not pf.composites or depth == 0 or self.rng.random() < 0.45:
            return self.scalar()
        c = self.rng.random()
        if c < 0.5:
            return ("arr", self.ty(depth - 1), self.rng.randrange(1, pf.max_len + 1))
        if c < 0.7:
            return ("tup", tuple(self.ty(depth - 1) for _ in range(self.rng.randrange(1, 4))))
        vis = sorted(self.visible[self.cur])
        structs, aliases = [n for n in vis if n in self.w.structs], [n for n in vis if n in self.w.aliases]
        if structs:
            n = self.rng.choice(structs)
            return ("st", n, tuple(self.rng.randrange(1, 3) for _ in self.w.structs[n][1]))
        if aliases:
            return ("al", self.rng.choice(aliases))
        return self.scalar()

    # ------------------------------------------------ expressions
    @contextlib.contextmanager
    def whole(self):
        """the type checker leaves the size of a slice symbolic: a slice which is part of a literal,
        or of a conditional, has a type which it does not compare with others"""
        save, self.no_slice = self.no_slice, True
        try:
            yield
        finally:
            self.no_slice = save

    def lit(self, t):
        if t == B:
            return boolean(self.rng.random() < 0.5)
        v = rand_scalar(self.rng, t, self.pf.p)
        if t == F and v >= self.pf.p:
            v %= self.pf.p
        e = num(t, v)
        e["_style"] = self.rng.randrange(2)
        return e

    def access_paths(self, ctx, want, limit=12):
        """ways to reach a value of type want from the variables in scope"""
        res = []

        def go(e, t, d):
            t = norm(self.w, t)
            if t == want:
                res.append(e)
            if d == 0:
                return
            if t[0] == "arr" and isinstance(t[2], int):
                idxs = [integer(self.rng.randrange(t[2]))] if t[2] else []
                if self.rng.random() < self.pf.dyn_index and self.dyn_ok():
                    i = self.dyn_idx(ctx, t[2])
                    if i is not None:
                        idxs = [i]
                for i in idxs:
                    go({"e": "idx", "a": e, "i": num(U32, i["v"]) if i["e"] == "int" else i}, t[1], d - 1)
            elif t[0] == "arr":
                for v in ctx.vars():
                    if v[3] == ("loop", t[2]):
                        go({"e": "idx", "a": e, "i": var(v[0])}, t[1], d - 1)
            elif t[0] == "tup":
                for i, x in enumerate(t[1]):
                    go({"e": "tel", "a": e, "i": i}, x, d - 1)
            elif t[0] == "st":
                for n, x in members(self.w, t)[1]:
                    go({"e": "mem", "a": e, "f": n}, x, d - 1)

        vs = list(ctx.vars())
        self.rng.shuffle(vs)
        for v in vs[:limit]:
            go(var(v[0]), v[1], 2)
        for c in self.consts_in(ctx.mod):
            if not any(v[0] == c[0] for v in vs):
                go(var(c[0]), c[1], 2)
        return res

    def dyn_ok(self):
        return U32 in self.pf.scalars

    def dyn_idx(self, ctx, n):
        c = [v for v in ctx.vars() if v[1] == U32 and not (v[3] and v[3][0] == "counter" and v[3][1]["max"] >= n)]
        if not c:
            return None
        v = self.rng.choice(c)
        if v[0].startswith("ix") or v[3] is not None:
            return var(v[0])
        return bin_("%", var(v[0]), num(U32, n)) if self.rng.random() < 0.7 else None

    def consts_in(self, mod):
        return [(c["n"], c["_ty"]) for c in self.mods[mod]["consts"]] + [
            (i["n"], i["_cty"]) for i in self.mods[mod]["imp"] if "_cty" in i]

    def expr(self, ctx, t, d):
        t = norm(self.w, t)
        save = self.no_slice
        if t[0] in "fbu":
            self.no_slice = False
        try:
            return self.expr1(ctx, t, d)
        finally:
            self.no_slice = save

    def expr1(self, ctx, t, d):
        self.nodes += 1
        rng, pf = self.rng, self.pf
        if d <= 0 or rng.random() < 0.12:
            return self.leaf(ctx, t, d)
        if rng.random() < 0.1:
            c = self.expr(ctx, B, d - 1)
            with self.whole():
                return {"e": "if", "c": c, "a": self.expr(ctx, t, d - 1), "b": self.expr(ctx, t, d - 1), "_t": rng.random() < 0.5}
        if pf.fns and rng.random() < 0.2:
            c = self.call(ctx, t, d)
            if c:
                return c
        if t[0] in ("arr", "tup", "st"):
            if rng.random() < 0.5:
                ps = self.access_paths(ctx, t)
                if ps:
                    return rng.choice(ps)
            return self.build(ctx, t, d)
        if t == B:
            return self.bool_expr(ctx, d)
        if t == F:
            return self.field_expr(ctx, d)
        return self.uint_expr(ctx, t, d)

    def leaf(self, ctx, t, d=0):
        if self.rng.random() > self.pf.lit or t[0] not in "fbu":
            ps = self.access_paths(ctx, t)
            if ps:
                return self.rng.choice(ps)
        if t[0] in "fbu":
            return self.lit(t)
        return self.build(ctx, t, d)

    def build(self, ctx, t, d):
        rng = self.rng
        if t[0] == "tup":
            with self.whole():
                return {"e": "tup", "xs": [self.expr(ctx, x, d - 1) for x in t[1]]}
        if t[0] == "st":
            with self.whole():
                fs = [{"n": n, "x": self.expr(ctx, x, d - 1)} for n, x in members(self.w, t)[1]]
            rng.shuffle(fs)
            return {"e": "st", "n": local(t[1]), "g": [], "fs": fs}
        n = t[2]
        if not isinstance(n, int):
            with self.whole():
                return {"e": "rep", "x": self.expr(ctx, t[1], d - 1), "n": integer(n)}
        if n == 0:
            with self.whole():
                return {"e": "slice", "a": {"e": "rep", "x": self.expr(ctx, t[1], 0), "n": integer(1)}, "lo": num(U32, 0), "hi": num(U32, 0)}
        # a constant which refers to elements of another one only reduces if that is a plain literal
        c = 1 if self.in_const else rng.random()
        if 0.35 <= c < 0.5 and d > 0 and not self.no_slice:
            lo, ex = rng.randrange(0, 2), rng.randrange(0, 2)
            a = self.expr(ctx, ("arr", t[1], lo + n + ex), d - 1)
            return {"e": "slice", "a": a,
                    "lo": {"e": "none"} if lo == 0 and rng.random() < 0.5 else num(U32, lo),
                    "hi": {"e": "none"} if ex == 0 and rng.random() < 0.5 else num(U32, lo + n)}
        with self.whole():
            if c < 0.2 or n > 6:
                return {"e": "rep", "x": self.expr(ctx, t[1], d - 1), "n": integer(n)}
            if c < 0.35 and n > 1 and d > 0:
                k = rng.randrange(1, n)
                return {"e": "arr", "xs": [{"sp": True, "x": self.expr(ctx, ("arr", t[1], k), d - 1)}] +
                        [{"sp": False, "x": self.expr(ctx, t[1], d - 1)} for _ in range(n - k)]}
            return {"e": "arr", "xs": [{"sp": False, "x": self.expr(ctx, t[1], d - 1)} for _ in range(n)]}

    def bool_expr(self, ctx, d):
        rng = self.rng
        c = rng.random()
        if c < 0.3:
            return bin_(self.pick("&&", "||"), self.expr(ctx, B, d - 1), self.expr(ctx, B, d - 1))
        if c < 0.4:
            return {"e": "un", "o": "!", "a": self.expr(ctx, B, d - 1)}
        ops = ["==", "!="]
        t = self.scalar()
        if self.pf.composites and rng.random() < 0.2:
            t = norm(self.w, self.ty(2))
        if t[0] == "u" or (t == F and self.pf.cmp_field):
            ops = ["==", "!=", "<", "<=", ">", ">="]
        with self.whole():
            return bin_(rng.choice(ops), self.expr(ctx, t, d - 1), self.expr(ctx, t, d - 1))

    def field_expr(self, ctx, d):
        rng = self.rng
        c = rng.random()
        if c < 0.1:
            return {"e": "un", "o": "-", "a": self.expr(ctx, F, d - 1)}
        if c < 0.12:
            return {"e": "un", "o": "+", "a": self.expr(ctx, F, d - 1)}
        if c < 0.22 and pf_pow(self.pf):
            return bin_("**", self.expr(ctx, F, d - 1), num(U32, rng.choice([0, 1, 2, 3, 4, 5, 7, 10])))
        if c < 0.22 + 0.2 * self.pf.division:
            return bin_("/", self.expr(ctx, F, d - 1), self.expr(ctx, F, d - 1))
        return bin_(self.pick("+", "-", "*"), self.expr(ctx, F, d - 1), self.expr(ctx, F, d - 1))

    def uint_expr(self, ctx, t, d):
        rng = self.rng
        self.uses_w = max(self.uses_w, t[1])
        c = rng.random()
        e = lambda: self.expr(ctx, t, d - 1)
        if c < 0.08:
            return {"e": "un", "o": "!", "a": e()}
        if c < 0.14:
            return {"e": "un", "o": "-", "a": e()}
        if c < 0.16:
            return {"e": "un", "o": "+", "a": e()}
        if c < 0.3 and pf_pow(self.pf):
            return bin_(self.pick("<<", ">>"), e(), num(U32, rng.choice([0, 1, 2, 3, t[1] // 2, t[1] - 1, t[1], t[1] + 1, 130, rng.randrange(t[1])])))
        if c < 0.3 + 0.3 * self.pf.division:
            b = e()
            if rng.random() < 0.4:
                b = num(t, rng.choice([1, 2, 3, 7, (1 << t[1]) - 1, rng.randrange(1, 1 << t[1])]))
            return bin_(self.pick("/", "%"), e(), b)
        if c < 0.65:
            # | is not reduced in constants
            return bin_(self.pick("&", "^") if self.in_const else self.pick("&", "|", "^"), e(), e())
        return bin_(self.pick("+", "-", "*") if self.pf.mul else self.pick("+", "-"), e(), e())

    def call(self, ctx, t, d):
        cands = [(n, f) for n, f in self.callable(ctx.mod) if norm(self.w, f["_ret"]) == t and not f["gen"]]
        gens = []
        for n, f in self.callable(ctx.mod):
            if f["gen"]:
                r = norm(self.w, f["_ret"])
                if r[0] == "arr" and t[0] == "arr" and r[2] == "N" and r[1] == t[1]:
                    gens.append((n, f, t[2]))
                elif r == t:
                    gens.append((n, f, self.rng.randrange(1, self.pf.max_len + 1)))
        if gens and (not cands or self.rng.random() < 0.5):
            n, f, k = self.rng.choice(gens)
            xs = [self.expr(ctx, subst(norm(self.w, p["_ty"]), {"N": k}), d - 1) for p in f["ps"]]
            inferable = any("N" in str(p["_ty"]) for p in f["ps"])
            g = []
            if not inferable or self.rng.random() < 0.4:
                g = [integer(k)]
            return {"e": "call", "n": n, "g": g, "xs": xs}
        if not cands:
            return None
        n, f = self.rng.choice(cands)
        return {"e": "call", "n": n, "g": [], "xs": [self.expr(ctx, p["_ty"], d - 1) for p in f["ps"]]}

    def callable(self, mod):
        m = self.mods[mod]
        res = [(f["n"], f) for f in m["fns"] if f["n"] != "main"]
        for i in m["imp"]:
            for f in i.get("_fns", []):
                res.append((i["n"], f))
        return res

    # ------------------------------------------------ statements
    def block(self, ctx, n, d, top=True):
        return [self.statement(ctx, d) for _ in range(n)]

    def declare(self, ctx, n, t, mut, kind=None):
        ctx.scopes[-1].append((n, t, mut, kind))

    def statement(self, ctx, d, loop=0):
        rng, pf = self.rng, self.pf
        c = rng.random()
        muts = [v for v in ctx.vars() if v[2] and not v[3]]
        counters = [v for v in ctx.vars() if v[3] and v[3][0] == "counter"]
        if pf.loops and rng.random() < (0.15 if counters else 0.12):
            return self.counter(ctx, counters)
        if muts and c < 0.4:
            v = rng.choice(muts)
            t, path = norm(self.w, v[1]), []
            while t[0] in ("arr", "tup", "st") and rng.random() < 0.75:
                if t[0] == "arr":
                    if not isinstance(t[2], int):
                        ls = [x for x in ctx.vars() if x[3] == ("loop", t[2])]
                        if not ls:
                            break
                        path.append({"k": "i", "x": var(ls[0][0])})
                    else:
                        i = None
                        if rng.random() < pf.dyn_index and self.dyn_ok():
                            i = self.dyn_idx(ctx, t[2])
                        if i is None and t[2] == 0:
                            break
                        path.append({"k": "i", "x": i if i is not None else num(U32, rng.randrange(t[2]))})
                    t = t[1]
                elif t[0] == "tup":
                    i = rng.randrange(len(t[1]))
                    path.append({"k": "t", "i": i})
                    t = t[1][i]
                else:
                    n, t2 = rng.choice(members(self.w, t)[1])
                    path.append({"k": "m", "f": n})
                    t = t2
                t = norm(self.w, t)
            return {"s": "set", "n": v[0], "path": path, "x": self.expr(ctx, t, d)}
        if pf.loops and c < 0.55 and loop < 2:
            n = self.fresh("i")
            if rng.random() < pf.shadow and any(v[0] not in ctx.sizes for v in ctx.vars()):
                n = rng.choice([v[0] for v in ctx.vars() if v[0] not in ctx.sizes])
            lo = rng.choice([0, 0, 0, 1, 2])
            hi = lo + rng.choice([0, 1, 2, 2, 3]) if rng.random() < 0.93 else max(0, lo - 1)
            lo_e, hi_e, kind = num(U32, lo), num(U32, hi), ("const", hi)
            if ctx.sizes and rng.random() < 0.7:
                lo, lo_e, hi_e, kind = 0, num(U32, 0), var("N"), ("loop", "N")
            else:
                # a bound which is a variable of known value
                bs = counters + [v for v in ctx.vars() if v[3] and v[3][0] == "const"]
                if bs and rng.random() < 0.7:
                    v = rng.choice(bs)
                    hi, hi_e = (v[3][1]["max"] if v[3][0] == "counter" else v[3][1]), var(v[0])
                    if rng.random() < 0.3:
                        hi, hi_e = hi + 1, bin_("+", hi_e, num(U32, 1))
                    kind = ("const", hi)
                    if rng.random() < 0.3:
                        lo_e = var(rng.choice(bs)[0])
            if counters and rng.random() < 0.1:
                lo_e = var(rng.choice(counters)[0])
            ctx.scopes.append([(n, U32, False, kind)])
            ctx.scopes.append([])
            self.trips *= max(1, hi if kind[0] == "const" else 3)
            self.in_loop += 1
            body = [self.statement(ctx, d - 1, loop + 1) for _ in range(rng.randrange(1, 4))]
            self.trips //= max(1, hi if kind[0] == "const" else 3)
            self.in_loop -= 1
            ctx.scopes.pop()
            ctx.scopes.pop()
            return {"s": "for", "n": n, "lo": lo_e, "hi": hi_e, "body": body}
        if pf.asserts and c < 0.68:
            return self.assertion(ctx, d)
        if pf.logs and c < 0.75:
            return self.log(ctx, d)
        t = self.ty()
        if ctx.sizes and rng.random() < 0.3:
            t = ("arr", self.scalar(), "N")
        x = self.expr(ctx, t, d)
        n = self.fresh("v")
        if rng.random() < pf.shadow and list(ctx.vars()):
            # not a size: the type of the variable may mention it
            n = rng.choice([v[0] for v in ctx.vars() if v[0] not in ctx.sizes] or [n])
        mut = rng.random() < 0.6
        self.declare(ctx, n, t, mut)
        return {"s": "let", "n": n, "mut": mut, "_ty": t, "x": x, "t": ty_ast(t)}

    def counter(self, ctx, counters):
        """a variable whose value the compiler knows, to be used as the bound of a loop"""
        rng = self.rng
        if counters and rng.random() < 0.75:
            v = rng.choice(counters)
            k = v[3][1]
            if k["max"] + self.trips <= 4 and rng.random() < 0.7:
                k["max"] += self.trips
                x = bin_("+", var(v[0]), num(U32, 1))
            else:
                c = rng.randrange(4)
                k["max"] = max(k["max"], c) if self.in_loop else c
                x = num(U32, c)
            return {"s": "set", "n": v[0], "path": [], "x": x}
        n, c = self.fresh("k"), rng.randrange(4)
        self.declare(ctx, n, U32, True, ("counter", {"max": c}))
        return {"s": "let", "n": n, "mut": True, "_ty": U32, "x": num(U32, c), "t": ty_ast(U32)}

    def assertion(self, ctx, d):
        rng = self.rng
        c = rng.random()
        if c < 0.35:
            # usually true: a tautology over the variables
            t = self.ty() if self.pf.composites else self.scalar()
            e = self.expr(ctx, t, d - 1)
            x = bin_("==", e, e)
        elif c < 0.6:
            x = bin_("||", self.expr(ctx, B, d - 1), self.expr(ctx, B, d - 1))
        else:
            x = self.expr(ctx, B, d)
        return {"s": "assert", "x": x, "msg": rng.choice(["", "boom"])}

    def log(self, ctx, d):
        n = self.rng.randrange(1, 3)
        ts = [norm(self.w, self.ty()) for _ in range(n)]
        k = self.fresh("L")
        return {"s": "log", "fmt": [k + "@"] + ["@%d@" % i for i in range(n)], "xs": [self.expr(ctx, t, min(d, 2)) for t in ts], "_ts": ts}

    # ------------------------------------------------ declarations
    def function(self, mod, name, ps, ret, gen=(), nst=(0, 3), depth=None):
        ctx = Ctx(self, mod)
        for g in gen:
            ctx.sizes[g] = None
            self.declare(ctx, g, U32, False, ("gen", g))
        for p in ps:
            self.declare(ctx, p["n"], p["_ty"], p.get("mut", False))
        d = depth if depth is not None else self.pf.depth
        body = [self.statement(ctx, d) for _ in range(self.rng.randrange(nst[0], nst[1] + 1))]
        body.append({"s": "ret", "x": self.expr(ctx, ret, d)})
        return {"n": name, "gen": list(gen), "ps": ps, "_ret": ret, "ret": ty_ast(ret), "body": body}

    def param(self, n, t, mut=False, vis=""):
        return {"n": n, "_ty": t, "t": ty_ast(t), "mut": mut, "vis": vis}

    def program(self):
        rng, pf = self.rng, self.pf
        for k in range(1, pf.modules):
            self.module("m%d" % k)
        self.module("main")
        m = self.mods["main"]
        ins = []
        for i in range(rng.randrange(pf.inputs[0], pf.inputs[1] + 1)):
            t = self.ty()
            ins.append(self.param(self.fresh("a"), t, rng.random() < 0.3, rng.choice(["", "private ", "public "])))
        if pf.composites and self.dyn_ok() and rng.random() < pf.dyn_index * 3:
            ins.append(self.param(self.fresh("ix"), U32, False, "private "))
        ret = self.ty()
        f = self.function("main", "main", ins, ret, (), pf.stmts)
        m["fns"].append(f)
        return f

    def module(self, mod):
        rng = self.rng
        self.mods[mod] = {"fns": [], "consts": [], "structs": [], "types": [], "imp": []}
        self.visible[mod], self.exports[mod], self.cur = {}, [], mod
        self.paths[mod] = rng.choice(["", "", "lib/", "lib/deep/", "app/"]) + mod
        NAMES.clear()
        for other in list(self.mods)[:-1]:
            if rng.random() < (0.9 if mod == "main" else 0.6):
                self.imports(mod, other)
        NAMES.update(self.visible[mod])
        self.library(mod)

    def rel(self, mod, other):
        """how the file of mod refers to that of other"""
        here = posixpath.dirname(self.paths[mod])
        p = posixpath.relpath(self.paths[other], here or ".")
        if here and self.rng.random() < 0.2:
            p = "../%s/%s" % (posixpath.basename(here), p)
        p = p if p.startswith("../") else "./" + p
        return p + ".zok" if self.rng.random() < 0.2 else p

    def imports(self, mod, other):
        """mod imports some of what other defines or imports itself"""
        rng = self.rng
        imp, taken = self.mods[mod]["imp"], {i["n"] for i in self.mods[mod]["imp"]}
        chosen = [e for e in self.exports[other] if rng.random() < 0.6]
        # the types of the functions and constants imported
        need, todo = [], []
        for e in chosen:
            todo += [e[2]] if e[0] == "const" else [t for f in e[2] for t in [f["_ret"]] + [p["_ty"] for p in f["ps"]]] if e[0] == "fn" \
                else [("st", e[2], ()) if e[2] in self.w.structs else ("al", e[2])]
        while todo:
            t = todo.pop()
            if t[0] == "st":
                need.append(t[1])
                todo += [x for _, x in self.w.structs[t[1]][2]]
            elif t[0] == "al":
                need.append(t[1])
                todo.append(self.w.aliases[t[1]])
            elif t[0] == "arr":
                todo.append(t[1])
            elif t[0] == "tup":
                todo += t[1]
        chosen = [e for e in chosen if e[0] != "type"] + [e for e in self.exports[other] if e[0] == "type" and (e in chosen or e[2] in need)]
        known = {e[2] for e in self.exports[other] if e[0] == "type"}
        rng.shuffle(chosen)
        for kind, name, obj in chosen:
            if kind == "type" and obj in self.visible[mod]:
                continue
            if kind == "fn" and any(i.get("_fns") is obj for i in imp):
                continue
            n = name
            path = self.rel(mod, other)
            base = posixpath.basename(path).replace(".zok", "")
            legacy = kind == "fn" and name == "main" and rng.random() < 0.6
            if legacy:
                n = base
            if rng.random() < 0.3 or n in taken or n == "main":
                n = self.fresh("x")
            taken.add(n)
            i = {"n": n, "m": other, "x": name, "_path": path, "_main": legacy, "_base": base}
            if kind == "fn":
                i["_fns"] = obj
            elif kind == "const":
                i["_cty"] = obj
            else:
                self.visible[mod][obj] = n
            imp.append(i)
            self.exports[mod].append((kind, n, obj))

    def library(self, mod):
        rng, pf = self.rng, self.pf
        m = self.mods[mod]
        for _ in range(pf.structs):
            n = self.fresh("S")
            gen = ["K"] if rng.random() < 0.3 else []
            fs = []
            for _ in range(rng.randrange(1, 4)):
                t = self.ty(1)
                if gen and rng.random() < 0.6:
                    t = ("arr", self.scalar(), "K")
                fs.append({"n": self.fresh("m"), "_ty": t, "t": ty_ast(t)})
            if gen and not any("K" in str(f["_ty"]) for f in fs):
                fs.append({"n": self.fresh("m"), "_ty": ("arr", self.scalar(), "K"), "t": ty_ast(("arr", F, "K"))})
            for f in fs:
                f["t"] = ty_ast(f["_ty"])
            m["structs"].append({"n": n, "gen": gen, "fs": fs})
            self.visible[mod][n] = n
            self.exports[mod].append(("type", n, n))
            self.w.structs[n] = ("%s.%s" % (mod, n), gen, [(f["n"], f["_ty"]) for f in fs])
        for _ in range(pf.aliases):
            t = self.ty(1)
            n = self.fresh("T")
            m["types"].append({"n": n, "_ty": t, "t": ty_ast(t)})
            self.w.aliases[n] = t
            self.visible[mod][n] = n
            self.exports[mod].append(("type", n, n))
        for _ in range(pf.consts):
            t = self.ty(1)
            c = Ctx(self, mod)
            x = self.const_expr(c, t, 2)
            m["consts"].append({"n": self.fresh("C"), "_ty": t, "x": x, "t": ty_ast(t)})
            self.exports[mod].append(("const", m["consts"][-1]["n"], t))
        names = []
        for _ in range(pf.fns):
            name = self.fresh("f")
            if mod != "main" and not names and rng.random() < 0.3:
                name = "main"
            elif self.used_fns and rng.random() < 0.3:
                # a name which another module uses for something else
                o = rng.choice(self.used_fns)
                if o not in names and not any(i["n"] == o for i in m["imp"]):
                    name = o
            gen = ["N"] if pf.generics and rng.random() < 0.4 else []
            ps = []
            for _ in range(rng.randrange(0 if not gen else 1, 4)):
                t = self.ty()
                if gen and rng.random() < 0.6:
                    t = ("arr", self.scalar(), "N")
                ps.append(self.param(self.fresh("p"), t, rng.random() < 0.4))
            ret = self.ty()
            if gen and rng.random() < 0.5:
                ret = ("arr", self.scalar(), "N")
            if names and not gen and rng.random() < 0.3:
                # overload an existing name when the signature differs
                other = rng.choice(names)
                sigs = [tuple(str(norm(self.w, p["_ty"])) for p in f["ps"]) for f in m["fns"] if f["n"] == other]
                if tuple(str(norm(self.w, p["_ty"])) for p in ps) not in sigs and not any(f["gen"] for f in m["fns"] if f["n"] == other) \
                        and not any(len(f["ps"]) == len(ps) for f in m["fns"] if f["n"] == other):
                    name = other
            f = self.function(mod, name, ps, ret, gen, (0, 3), min(2, pf.depth))
            m["fns"].append(f)
            if name not in names:
                self.exports[mod].append(("fn", name, [f]))
            else:
                [e for e in self.exports[mod] if e[1] == name][0][2].append(f)
            names.append(name)
        self.used_fns += [n for n in names if n != "main"]

    def const_expr(self, ctx, t, d):
        save = (self.pf.division, self.pf.fns, self.pf.cmp_field)
        self.pf.division, self.pf.fns, self.pf.cmp_field = 0, 0, False
        self.in_const = True
        e = self.expr(ctx, t, d)
        self.in_const = False
        self.pf.division, self.pf.fns, self.pf.cmp_field = save
        return e

    # ------------------------------------------------ output
    def inputs(self, f):
        vals = []
        for p in f["ps"]:
            if p["n"].startswith("ix"):
                vals.append(self.rng.randrange(0, self.pf.max_len + (1 if self.rng.random() < 0.3 else 0)))
            else:
                vals.append(rand_value(self.rng, self.w, p["_ty"], self.pf.p))
        return vals

    def prog(self):
        return {"p": limbs(self.pf.p), "bits": bits(self.pf.p), "main": "main", "mods": {k: strip(v) for k, v in self.mods.items()}}


def generate(seed, pf):
    """a program and inputs for it: (Gen, main function, source, list of inputs)"""
    rng = random.Random(seed)
    g = Gen(rng, pf)
    f = g.program()
    full = rng.random() < pf.full_parens
    src = Src(full, not full)
    text = {}
    for m, x in g.mods.items():
        NAMES.clear()
        NAMES.update(g.visible[m])
        text[m] = src.module(x)
    runs = [g.inputs(f) for _ in range(pf.runs)]
    return g, f, text, runs
