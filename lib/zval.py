"""Types, values and numbers shared by the generators and the drivers.

Types:  ('f',) ('b',) ('u', w) ('arr', T, n) ('tup', (T, ...)) ('st', name, (size, ...)) ('al', name)
Values: field / uint -> int, bool -> bool, arrays and tuples -> list, structs -> list in member order
"""
import random


def limbs(n):
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


def unlimbs(l):
    n = 0
    for x in reversed(l):
        n = n * 10000 + x
    return n


def is_prime(n):
    if n < 2:
        return False
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % a == 0:
            return n == a
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    while not is_prime(n):
        n += 1
    return n


def prev_prime(n):
    while not is_prime(n):
        n -= 1
    return n


BN128 = 21888242871839275222246405745257275088548364400416034343698204186575808495617
CURVES = {
    "bn128": BN128,
    "bls12_381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "bls12_377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
    "bw6_761": 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177,
    "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
}


def fname(p):
    """the harness's name for the field of p elements"""
    for k, v in CURVES.items():
        if v == p:
            return k
    return "fp:%d" % p


def bits(p):
    return p.bit_length()


def cmp_bound(p):
    return 1 << (bits(p) - 2)


# least prime widths at which the compiler supports unsigned integers of each width
MIN_P = {0: 5, 8: 1 << 18, 16: 1 << 34, 32: 1 << 66, 64: 1 << 130}


class World:
    """what is needed to interpret named types: struct and alias definitions"""

    def __init__(self):
        self.structs = {}  # name -> (canonical name, gens, [(field, type)])
        self.aliases = {}


def subst(ty, g):
    if ty[0] == "arr":
        return ("arr", subst(ty[1], g), g.get(ty[2], ty[2]))
    if ty[0] == "tup":
        return ("tup", tuple(subst(t, g) for t in ty[1]))
    if ty[0] == "st":
        return ("st", ty[1], tuple(g.get(x, x) for x in ty[2]))
    return ty


def members(w, ty):
    canon, gens, fs = w.structs[ty[1]]
    g = dict(zip(gens, ty[2]))
    return canon, [(n, subst(t, g)) for n, t in fs]


def norm(w, ty):
    if ty[0] == "al":
        return norm(w, w.aliases[ty[1]])
    if ty[0] == "arr":
        return ("arr", norm(w, ty[1]), ty[2])
    if ty[0] == "tup":
        return ("tup", tuple(norm(w, t) for t in ty[1]))
    return ty


def max_width(w, ty):
    ty = norm(w, ty)
    if ty[0] == "u":
        return ty[1]
    if ty[0] == "arr":
        return max_width(w, ty[1])
    if ty[0] == "tup":
        return max([max_width(w, t) for t in ty[1]] + [0])
    if ty[0] == "st":
        return max([max_width(w, t) for _, t in members(w, ty)[1]] + [0])
    return 0


def to_spec(w, ty, v):
    ty = norm(w, ty)
    k = ty[0]
    if k == "f":
        return {"k": "f", "n": limbs(v)}
    if k == "u":
        return {"k": "u", "w": ty[1], "n": limbs(v)}
    if k == "b":
        return {"k": "b", "b": bool(v)}
    if k == "arr":
        return {"k": "a", "s": [to_spec(w, ty[1], x) for x in v]}
    if k == "tup":
        return {"k": "t", "s": [to_spec(w, t, x) for t, x in zip(ty[1], v)]}
    canon, ms = members(w, ty)
    return {"k": "s", "n": canon, "fs": [n for n, _ in ms], "s": [to_spec(w, t, x) for (_, t), x in zip(ms, v)]}


def to_json(w, ty, v):
    """as accepted by the ABI"""
    ty = norm(w, ty)
    k = ty[0]
    if k == "f":
        return str(v)
    if k == "u":
        return "0x%0*x" % (ty[1] // 4, v)
    if k == "b":
        return bool(v)
    if k == "arr":
        return [to_json(w, ty[1], x) for x in v]
    if k == "tup":
        return [to_json(w, t, x) for t, x in zip(ty[1], v)]
    return {n: to_json(w, t, x) for (n, t), x in zip(members(w, ty)[1], v)}


class BadValue(Exception):
    pass


def from_json(w, ty, j):
    """strict reading of what the tool printed"""
    ty = norm(w, ty)
    k = ty[0]
    if k == "f":
        if not isinstance(j, str) or not j.isdigit():
            raise BadValue(repr(j))
        return int(j)
    if k == "u":
        if not isinstance(j, str) or len(j) != 2 + ty[1] // 4 or not j.startswith("0x"):
            raise BadValue(repr(j))
        return int(j, 16)
    if k == "b":
        if not isinstance(j, bool):
            raise BadValue(repr(j))
        return j
    if k in ("arr", "tup"):
        ts = [ty[1]] * ty[2] if k == "arr" else ty[1]
        if not isinstance(j, list) or len(j) != len(ts):
            raise BadValue(repr(j))
        return [from_json(w, t, x) for t, x in zip(ts, j)]
    ms = members(w, ty)[1]
    if not isinstance(j, dict) or list(j) != [n for n, _ in ms]:
        raise BadValue(repr(j))
    return [from_json(w, t, j[n]) for n, t in ms]


def rand_scalar(rng, ty, p):
    k = ty[0]
    if k == "b":
        return rng.random() < 0.5
    if k == "u":
        m = 1 << ty[1]
        c = rng.random()
        if c < 0.25:
            return rng.choice([0, 1, 2, m - 1, m - 2, m >> 1, (m >> 1) - 1, (m >> 1) + 1])
        if c < 0.5:
            return rng.randrange(0, 5)
        if c < 0.6:
            return rng.getrandbits(rng.randrange(1, ty[1] + 1))
        return rng.randrange(m)
    b = cmp_bound(p)
    c = rng.random()
    if c < 0.2:
        return rng.choice([0, 1, 2, p - 1, p - 2, p // 2, p // 2 + 1, b - 1, b, b + 1, b // 2]) % p
    if c < 0.55:
        return rng.randrange(0, min(p, 6))
    if c < 0.8:
        return rng.randrange(0, max(1, min(b, p)))
    return rng.randrange(p)


def rand_value(rng, w, ty, p):
    ty = norm(w, ty)
    if ty[0] == "arr":
        return [rand_value(rng, w, ty[1], p) for _ in range(ty[2])]
    if ty[0] == "tup":
        return [rand_value(rng, w, t, p) for t in ty[1]]
    if ty[0] == "st":
        return [rand_value(rng, w, t, p) for _, t in members(w, ty)[1]]
    return rand_scalar(rng, ty, p)
