"""Compiled programs for Ir.tla, and sessions for ZokProver.tla."""
from lang import *


def ir_spec(ir, p, num=None, logs=False):
    """the program as Ir.tla reads it, and the renumbering of its variables (1 is the constant one)"""
    num = {0: 1} if num is None else num

    def v(i):
        if i not in num:
            num[i] = len(num) + 1
        return num[i]

    def lin(l):
        return [[v(i), limbs(int(c))] for i, c in l]
    args = [v(i) for i, _ in ir["args"]]
    st = []
    for s in ir["st"]:
        if s["t"] == "c":
            st.append({"t": "c", "l": lin(s["l"]), "r": lin(s["r"]), "o": lin(s["o"])})
        elif s["t"] == "d":
            name, w = s["s"], 0
            if name.startswith("Bits("):
                w = int(name[5:-1])
                name = "Bits"
            st.append({"t": "d", "s": name, "w": w, "i": [{"l": lin(a), "r": lin(b)} for a, b in s["i"]], "o": [v(i) for i in s["o"]]})
        elif logs and s["t"] == "l":
            st.append({"t": "l", "e": [lin(e) for e in s["e"]]})
        elif s["t"] == "b":
            st += ir_spec({"args": [], "rc": 0, "st": s["b"]}, p, num, logs)[0]["st"]
    rets = [v(-i - 1) for i in range(ir["rc"])]
    return {"p": limbs(p), "bits": bits(p), "n": len(num), "args": args, "pub": [not priv for _, priv in ir["args"]],
            "rets": rets, "st": st}, num


def conc(w, ty):
    """a type with everything resolved"""
    ty = norm(w, ty)
    k = ty[0]
    if k in "fb":
        return {"k": k}
    if k == "u":
        return {"k": "u", "w": ty[1]}
    if k == "arr":
        return {"k": "a", "t": conc(w, ty[1]), "n": ty[2]}
    if k == "tup":
        return {"k": "t", "ts": [conc(w, t) for t in ty[1]]}
    canon, ms = members(w, ty)
    return {"k": "s", "n": canon, "fs": [n for n, _ in ms], "ts": [conc(w, t) for _, t in ms]}


def run_spec(x, num, n):
    st = "ok" if x["ok"] else "fail" if x["stage"] == "exec" else "bad"
    enc = [limbs(int(e)) for e in x.get("enc", [])]
    wit = []
    if st == "ok":
        wit = [[10000]] * n
        for i, val in x["wit"]:
            if i in num:
                wit[num[i] - 1] = limbs(int(val))
    return {"enc": enc, "st": st, "wit": wit, "pub": [limbs(int(e)) for e in x.get("pub", [])]}


def prover_session(i, g, f, res, budget, skip, honest, anyp, runs):
    ir, num = ir_spec(res["ir"], g.pf.p)
    rr = [run_spec(res["runs"][k], num, ir["n"]) for k in runs]
    return {"id": i, "prog": g.prog(), "ts": [conc(g.w, p["_ty"]) for p in f["ps"]], "ir": ir, "runs": rr,
            "budget": budget, "skip": skip, "honest": honest, "any": anyp}


def flat(w, ty, v):
    """the encoding of a value: [(kind, width, field element)]"""
    ty = norm(w, ty)
    k = ty[0]
    if k in "fb":
        return [(k, 0, int(v))]
    if k == "u":
        return [(k, ty[1], v)]
    ts = [ty[1]] * ty[2] if k == "arr" else ty[1] if k == "tup" else [t for _, t in members(w, ty)[1]]
    return [e for t, x in zip(ts, v) for e in flat(w, t, x)]


def ill_typed(rng, g, f, args):
    """the encoding of args with one component which is no value of its type, or None"""
    e = [x for p, v in zip(f["ps"], args) for x in flat(g.w, p["_ty"], v)]
    at = [i for i, (k, _, _) in enumerate(e) if k != "f"]
    if not at:
        return None
    i = rng.choice(at)
    top = 2 if e[i][0] == "b" else 1 << e[i][1]
    p = g.pf.p
    bad = rng.choice([top, p - 1, p - 2, top + 1, rng.randrange(top, p), (top - 1) * 2, p // 2, (1 << (bits(p) - 2))])
    if bad < top or bad >= p:
        bad = top
    r = [str(x) for _, _, x in e]
    r[i] = str(bad)
    return {"raw": r}
