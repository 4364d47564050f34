"""C01-C04, C12, C17: what a program computes, against ZokLang."""
import time
from lang import *


def prof(**kw):
    return kw


def base(rng, composite=False, need_min=0):
    sc = [[F, B], [F, B, U8], [F, B, U8, U16, U32], [F, B, U32], [B, U8, U32], [F, B, U8, U16, U32, U64]][
        rng.choices(range(6), [3, 3, 4, 3, 2, 1])[0]]
    need = max([t[1] for t in sc if t[0] == "u"] + [0, need_min])
    return dict(p=pick_prime(rng, need), scalars=sc, depth=rng.randrange(2, 4), stmts=(1, 5), inputs=(1, 3), dyn_index=0)


def c01(rng):
    kw = base(rng)
    if rng.random() < 0.5:
        kw.update(stmts=(0, 1), depth=rng.randrange(2, 5))
    return Profile(**kw)


def c02(rng):
    kw = base(rng, need_min=32)
    kw.update(loops=True, fns=rng.randrange(1, 5), generics=rng.random() < .6, consts=rng.randrange(3), shadow=0.25)
    if rng.random() < 0.3:
        kw.update(composites=True, structs=rng.randrange(2), aliases=rng.randrange(2))
    return Profile(**kw)


def c03(rng):
    kw = base(rng, need_min=32)
    kw.update(composites=True, structs=rng.randrange(3), aliases=rng.randrange(2), consts=rng.randrange(2), dyn_index=rng.choice([0, 0.2, 0.4]),
              stmts=(1, 6))
    if rng.random() < 0.4:
        kw.update(loops=True, fns=rng.randrange(2), generics=rng.random() < .5)
    return Profile(**kw)


def c04(rng):
    kw = base(rng, need_min=32)
    kw.update(asserts=True, loops=rng.random() < .3, fns=rng.randrange(3), stmts=(1, 4), depth=2)
    if rng.random() < 0.4:
        kw.update(composites=True, structs=rng.randrange(2), dyn_index=rng.choice([0, 0.2]))
    return Profile(**kw)


def c12(rng):
    kw = base(rng, need_min=32)
    kw.update(modules=rng.randrange(2, 5), fns=rng.randrange(1, 3), structs=rng.randrange(2), consts=rng.randrange(2), aliases=rng.randrange(2),
              composites=rng.random() < 0.6, stmts=(1, 3), generics=rng.random() < 0.3, depth=2)
    return Profile(**kw)


def c17(rng):
    kw = base(rng, need_min=32)
    kw.update(logs=True, loops=True, fns=rng.randrange(3), asserts=rng.random() < .3, stmts=(1, 4), depth=2)
    if rng.random() < 0.6:
        kw.update(composites=True, structs=rng.randrange(2), dyn_index=rng.choice([0, 0.2]), generics=rng.random() < .3)
    return Profile(**kw)


PROFILES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C12": c12, "C17": c17}
# programs per batch and batches, quick and thorough
QUICK, BATCH, THOROUGH_S = 6000, 3000, 600


def check(prop, tier, seed, r):
    mk = PROFILES[prop]
    t0 = time.time()
    n = 0
    while True:
        cases = [make_case("%s-%d-%d" % (prop, seed, n + i), mk, debug=(prop == "C17" or i % 4 == 3)) for i in range(BATCH)]
        n += BATCH
        bad, counts = validate(cases, prop, logs=True)
        r.add(states=counts["states"], transitions=counts["transitions"], traces_validated_against_impl=counts["runs"],
              programs=counts["sessions"], must_fail=counts["must_fail"], may_fail=counts["may_fail"],
              compiled=sum(c.res.get("compile") == "ok" for c in cases))
        for c in cases[:2]:
            r.sample({"program": c.text["main"][:800], "inputs": c.job["runs"][:1], "observed": (c.res.get("runs") or [c.res.get("err")])[0]})
        for i, run, why, exp in sorted(bad, key=lambda b: len(cases[b[0]].text["main"])):
            c = cases[i]
            obs = c.res["runs"][run - 1] if run else c.res.get("err")
            r.violation("%s: expected %s, observed %s" % (why, exp[:300], str(obs)[:300]),
                        {"seed": c.seed, "job": c.job, "run": run, "expected": exp, "observed": obs, "text": c.text})
        if bad or (tier == "quick" and n >= QUICK) or time.time() - t0 > THOROUGH_S:
            break
