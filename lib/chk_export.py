"""C10 and C11: what is written for other tools, against Circom (r1cs, wtns and witness files) and Smt (SMT-LIB)."""
import random
import time
import vc
import lang
import chk_file
import chk_lang
from chk_opt import IrGen
from chk_field import PRIMES, SIZE
from irs import limbs

TOOLS = ("zkf",)


def flat(st):
    return [x for s in st for x in (flat(s["b"]) if s["t"] == "b" else [s])]


def job(seed):
    rng = random.Random("export" + seed)
    if rng.random() < .65:
        f = rng.choice(list(PRIMES))
        g = IrGen("export" + seed, PRIMES[f])
        ir = g.ir()
        ir["st"] = flat(ir["st"])
        return {"kind": "export", "f": f, "ir": ir, "debug": False, "runs": [[str(rng.choice([0, 1, 2, PRIMES[f] - 1, rng.randrange(PRIMES[f])])) for _ in range(g.nargs)] for _ in range(4)]}
    if rng.random() < .6:
        src, n = chk_file.asm(rng)
        return {"kind": "export", "f": "bn128", "src": src, "debug": rng.random() < .5,
                "runs": [[str(rng.choice([0, 1, 2, rng.randrange(PRIMES["bn128"])])) for _ in range(n)] for _ in range(4)]}
    n = rng.randrange(1, 4)
    args = ", ".join("%s field a%d" % (rng.choice(["private", "public"]), i) for i in range(n))
    t = rng.choice(["u8", "u16", "bool", "field"])
    e = {"u8": "u8_from_bits(u8_to_bits(%s))", "field": "%s * a0", "bool": "%s == a0 + 1"}.get(t, "%s * a0 + 7")
    ty, e = ("bool", e) if t == "bool" else ("field", e if t not in ("u8", "u16") else "%s * a0 + 7")
    ret = ", ".join(e % ("a%d" % rng.randrange(n)) for _ in range(2))
    body = "".join("    assert(a%d * a%d != %d);\n" % (rng.randrange(n), rng.randrange(n), rng.randrange(9, 99)) for _ in range(rng.randrange(3)))
    return {"kind": "export", "f": "bn128", "src": "def main(%s) -> (%s, %s) {\n%s    return (%s);\n}\n" % (args, ty, ty, body, ret), "debug": rng.random() < .5,
            "runs": [[str(rng.choice([0, 1, 2, rng.randrange(PRIMES["bn128"])])) for _ in range(n)] for _ in range(4)]}


def le(k, size):
    return list(int(k).to_bytes(size, "little"))


def circom(i, j, x):
    size = SIZE[j["f"]]
    p = x["prog"]
    val = lambda w: [[v, le(k, size)] for v, k in w]
    st = [{"t": "c", **{k: val(s[k]) for k in "lro"}} if s["t"] == "c" else {"t": s["t"]} for s in p["st"]]
    runs = [{"wtns": y["wtns"], "wit": val(y["wit"]), "native": y["native"], "back": val(y["back"] or []), "json": val(y["json"].items())} for y in x["runs"]]
    return {"id": i, "size": size, "prime": le(PRIMES[j["f"]], size), "r1cs": x["r1cs"], "prog": {"args": p["args"], "rc": p["rc"], "st": st}, "runs": runs}


class Unreadable(Exception):
    pass


def sexprs(text):
    """the s-expressions of an SMT-LIB file"""
    text = "\n".join(l.split(";")[0] for l in text.splitlines())
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    stack = [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            x = stack.pop()
            if not stack:
                raise Unreadable("unbalanced")
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    if len(stack) != 1:
        raise Unreadable("unbalanced")
    return stack[0]


def name(v):
    return "~one" if v == 0 else "_%d" % (v - 1) if v > 0 else "~out_%d" % (-1 - v)


def smt(i, j, x, rng):
    """the formula and the constants, numbered; None if the file is not of the expected commands"""
    p = PRIMES[j["f"]]
    prog = x["prog"]
    cons = [s for s in prog["st"] if s["t"] == "c"]
    num = {"|~prime|": 1, "|~one|": 2}
    for a, _ in prog["args"]:
        num.setdefault("|%s|" % name(a), len(num) + 1)
    for v in sorted({v for s in cons for k in "lro" for v, _ in s[k]} | {-1 - k for k in range(prog["rc"])}):
        num.setdefault("|%s|" % name(v), len(num) + 1)
    n = len(num)

    def tree(t):
        if isinstance(t, str):
            if t.isdigit():
                return {"k": "n", "n": limbs(int(t))}
            if not (t.startswith("|") and t.endswith("|") and len(t) > 2):
                raise Unreadable(t)
            return {"k": "v", "v": num.setdefault(t, len(num) + 1)}
        o = t[0] if t and isinstance(t[0], str) else ""
        if o not in ("and", "=", "+", "*", "mod") or (o == "mod" and len(t) != 3) or (o == "=" and len(t) < 3):
            raise Unreadable(str(t)[:80])
        return {"k": "o", "o": o, "xs": [tree(y) for y in t[1:]]}

    formula, declared = [], []
    for s in sexprs(x["smt"]):
        if s[:1] == ["declare-const"] and s[2:] == ["Int"]:
            declared.append(num.setdefault(s[1], len(num) + 1))
        elif s[:1] == ["assert"] and len(s) == 2:
            formula.append(tree(s[1]))
        elif s[:1] not in (["set-logic"], ["set-option"], ["check-sat"], ["get-model"], ["set-info"]):
            raise Unreadable(str(s)[:80])
    lin = lambda l: [[num["|%s|" % name(v)], limbs(int(k))] for v, k in l]
    st = [{"l": lin(s["l"]), "r": lin(s["r"]), "o": lin(s["o"])} for s in cons]
    envs = []
    used = len(num)

    def env(w, prime=p, one=1):
        e = [rng.randrange(p) for _ in range(used)]
        for v, k in w:
            t = "|%s|" % name(v)
            if t in num:
                e[num[t] - 1] = k
        e[0], e[1] = prime, one
        return e
    for y in x["runs"]:
        w = [(v, int(k)) for v, k in y["wit"]]
        envs.append(env(w))
        # other representatives of the same values
        envs.append(env([(v, k + rng.choice([0, p, 2 * p])) for v, k in w]))
        for _ in range(4):
            v = rng.randrange(len(w))
            envs.append(env(w[:v] + [(w[v][0], rng.choice([(w[v][1] + 1) % p, rng.randrange(p), 0]))] + w[v + 1:]))
        envs.append(env(w, prime=rng.choice([p - 1, p + 1, 2 * p, 7])))
        envs.append(env(w, one=rng.choice([0, 2, 1 + p])))
    envs.append(env([]))
    envs.append(env([(v, 0) for v in range(-9, 400)]))
    return {"id": i, "p": limbs(p), "n": n, "declared": declared, "formula": formula, "st": st, "envs": [[limbs(k) for k in e] for e in envs]}


def check(prop, tier, seed, r):
    t0, n = time.time(), 0
    while True:
        jobs = [job("%s-%d-%d" % (seed, n, i)) for i in range(160)]
        res = vc.run_jobs(jobs, prop, tool=vc.ZKF)
        sessions = []
        for i, (j, x) in enumerate(zip(jobs, res)):
            if x.get("error"):
                r.violation("writing the files crashes: %s" % x.get("err"), {"job": j})
            elif x.get("saved"):
                if prop == "C10":
                    sessions.append(circom(i, j, x))
                else:
                    try:
                        sessions.append(smt(i, j, x, random.Random("smt%s-%d-%d" % (seed, n, i))))
                    except (Unreadable, IndexError) as e:
                        r.violation("the SMT-LIB file cannot be read: %s" % e, {"job": j, "smt": x["smt"]})
        lines, states, dist = vc.tlc_sessions("Circom" if prop == "C10" else "Smt", sessions, prop)
        r.add(states=dist, transitions=states, traces_validated_against_impl=len(sessions), executions=sum(len(x.get("runs", [])) for x in res))
        if prop == "C11":
            r.add(assignments=sum(len(s["envs"]) for s in sessions), satisfying_assignments=sum(l == "##TRUE" for l in lines))
        r.sample({"src": jobs[0].get("src"), "ir": str(jobs[0].get("ir"))[:300], "f": jobs[0]["f"]})
        for l in lines:
            if l.startswith("@@"):
                _, i, k, what = l[2:].split("|", 3)
                r.violation(what, {"job": jobs[int(i)], "step": k})
        n += 1
        if r.violations or time.time() - t0 > (25 if tier == "quick" else 500):
            break
