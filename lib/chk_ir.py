"""C05, C06: what provers can do with compiled programs, against Ir and ZokLang (ZokProver)."""
import itertools
import time
from irs import *
import chk_lang


def tiny(rng):
    p = rng.choice([7, 11, 13, 17, 19, 23, 29, 31, 37])
    return Profile(p=p, scalars=[F, B], depth=rng.randrange(1, 4), stmts=(0, 3), inputs=(1, 2), runs=0, asserts=rng.random() < .3,
                   fns=rng.randrange(2), composites=False)


def words(rng):
    w = rng.choice([8, 8, 8, 16, 32, 32, 64])
    sc = [F, B, ("u", w)]
    return Profile(p=pick_prime(rng, w), scalars=sc, depth=rng.randrange(1, 3), stmts=(0, 2), inputs=(1, 2), runs=2, asserts=rng.random() < .3,
                   division=0.5)


def comps(rng):
    return Profile(p=pick_prime(rng, 32), scalars=[F, B, U32] if rng.random() < .5 else [F, B], depth=rng.randrange(1, 3), stmts=(0, 3), inputs=(1, 2),
                   runs=2, asserts=rng.random() < .3, composites=True, structs=1, dyn_index=.4, fns=rng.randrange(2))


def mixed(rng):
    return rng.choice([chk_lang.c01, chk_lang.c02, chk_lang.c03, chk_lang.c04])(rng)


def small_comps(rng):
    """composites and functions over a field so small that all inputs can be tried"""
    p = rng.choice([7, 11, 13, 17])
    return Profile(p=p, scalars=[F, B], depth=2, stmts=(0, 3), inputs=(1, 2), runs=0, composites=True, structs=1, asserts=rng.random() < .4, max_len=2)


def prepare(c, rng, runs, mk):
    c.job["want"] = ["ir", "wit"]
    p = c.g.pf.p
    if c.g.pf.runs == 0:
        e = [x for q in c.f["ps"] for x in flat(c.g.w, q["_ty"], zero(c.g.w, q["_ty"]))]
        k = len(e)
        if p ** k <= runs:
            raws = list(itertools.product(range(p), repeat=k))
        else:
            # mostly values of the types
            raws = {tuple(rng.randrange(2) if x[0] == "b" and rng.random() < .85 else rng.randrange(p) for x in e) for _ in range(runs)}
        c.job["runs"] = [{"raw": [str(x) for x in a]} for a in sorted(raws)]
    else:
        for a in c.runs[:2]:
            b = ill_typed(rng, c.g, c.f, a)
            if b:
                c.job["runs"].append(b)


def zero(w, ty):
    ty = norm(w, ty)
    if ty[0] in "fbu":
        return 0
    if ty[0] == "arr":
        return [zero(w, ty[1])] * ty[2]
    if ty[0] == "tup":
        return [zero(w, t) for t in ty[1]]
    return [zero(w, t) for _, t in members(w, ty)[1]]


def batch(prop, r, seed, n, parts, budget, honest, anyp, limit, runs):
    cases = []
    for k, (mk, m) in enumerate(parts):
        for i in range(m):
            c = make_case("%s-%s-%d-%d-%d" % (prop, seed, n, k, i), mk)
            rng = random.Random("x" + c.seed)
            prepare(c, rng, runs, mk)
            c.rng = rng
            cases.append(c)
    res = vc.run_jobs([c.job for c in cases], prop)
    sessions = []
    for i, (c, x) in enumerate(zip(cases, res)):
        if x.get("compile") == "ok" and x["nc"] <= limit:
            skip = 0 if c.rng.random() < .6 else c.rng.randrange(0, 40)
            sessions.append(prover_session(i, c.g, c.f, x, budget, skip, honest, anyp, range(len(x["runs"]))))
            if len(r.cov["samples"]) < 4 and x["nc"] > 5:
                r.sample({"program": c.text["main"], "p": str(c.g.pf.p), "constraints": x["nc"], "run": c.job["runs"][0], "observed": str(x["runs"][0])[:200]})
    lines, states, dist = vc.tlc_sessions("ZokProver", sessions, prop)
    cnt = {"honest": 0, "proof": 0, "dead": 0, "bounded": 0}
    bad = []
    for l in lines:
        if l.startswith("##"):
            cnt[l[2:].split("|")[0]] += 1
        else:
            bad.append(l[2:].split("|", 4))
    r.add(states=dist, transitions=states, traces_validated_against_impl=cnt["honest"] if honest else sum(len(s["runs"]) for s in sessions),
          programs=len(sessions), constraints=sum(len(s["ir"]["st"]) for s in sessions))
    if anyp:
        r.add(satisfying_assignments=cnt["proof"], refuted=cnt["dead"], bounded_searches=cnt["bounded"])
    for pr, i, run, why, exp in sorted(bad, key=lambda b: len(cases[int(b[1])].text["main"])):
        if pr != prop:
            continue
        c = cases[int(i)]
        r.violation("%s: %s" % (why, exp[:300]), {"seed": c.seed, "job": c.job, "run": int(run), "expected": exp, "observed": res[int(i)]["runs"][int(run) - 1],
                                                 "text": c.text})
    return bool(r.violations)


def check(prop, tier, seed, r):
    t0 = time.time()
    n = 0
    while True:
        if prop == "C05":
            stop = batch(prop, r, seed, n, [(tiny, 700), (small_comps, 250), (words, 160), (comps, 80)], 256 if tier == "quick" else 4096, False, True, 260, 60)
        else:
            stop = batch(prop, r, seed, n, [(mixed, 800), (comps, 300), (words, 200), (tiny, 100)], 1, True, False, 1500, 20)
        n += 1
        if stop or (tier == "quick" and time.time() - t0 > 30) or time.time() - t0 > 600:
            break
