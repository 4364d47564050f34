"""Random programs run in the real toolchain, their behaviours validated by ZokTrace."""
import json
import os
import random
import zgen
from zgen import *
import vc


def pick_prime(rng, need, small=True):
    """a modulus which supports the widths in use: just above the threshold, well above it, or bn128"""
    lo = MIN_P[need]
    c = rng.random()
    if need == 64 or c < 0.2:
        return BN128
    if c < 0.6:
        return next_prime(lo + rng.randrange(0, max(2, lo // 8)))
    b = min(125, max(lo.bit_length() + rng.randrange(0, 40), 4))
    return next_prime((1 << (b - 1)) + rng.getrandbits(b - 1) % (1 << (b - 2)))


def parse_log(text, fmt):
    """the values printed where the format has {}: the text between the literal parts"""
    pos, vals = 0, []
    if not text.startswith(fmt[0]):
        return None
    pos = len(fmt[0])
    for lit in fmt[1:]:
        j = text.find(lit, pos)
        if j < 0:
            return None
        vals.append(text[pos:j])
        pos = j + len(lit)
    return vals if pos == len(text) else None


def observed_logs(g, text):
    """the log lines as the specification writes them"""
    fmts = {}
    for m in g.mods.values():
        for f in m["fns"]:
            stack = list(f["body"])
            while stack:
                s = stack.pop()
                if s["s"] == "for":
                    stack += s["body"]
                elif s["s"] == "log":
                    fmts[s["fmt"][0]] = s
    out = []
    for line in text.split("\n"):
        if line == "":
            continue
        head = line.split("@")[0] + "@"
        s = fmts.get(head)
        vals = parse_log(line, s["fmt"]) if s else None
        if vals is None:
            out.append({"fmt": [line], "vs": []})
            continue
        try:
            vs = []
            for t, v in zip(s["_ts"], vals):
                vs.append(to_spec(g.w, t, from_json(g.w, t, json.loads(v))))
            out.append({"fmt": s["fmt"], "vs": vs})
        except Exception:
            out.append({"fmt": [line], "vs": []})
    return out


def session(i, g, f, text, runs, res, logs):
    s = {"id": i, "prog": g.prog(), "compile": res.get("compile", "panic"), "runs": []}
    if "error" in res:
        s["compile"] = "panic"
    rr = res.get("runs") or []
    for k, args in enumerate(runs):
        r = {"args": [to_spec(g.w, p["_ty"], v) for p, v in zip(f["ps"], args)]}
        o = {"st": "none", "v": "", "logs": False, "lg": []}
        if s["compile"] == "ok":
            x = rr[k]
            if x["ok"]:
                try:
                    o["v"] = to_spec(g.w, f["_ret"], from_json(g.w, f["_ret"], x["out"]))
                    o["st"] = "ok"
                except Exception as e:
                    o["st"] = "bad"
                    o["v"] = "unreadable output"
                if logs:
                    o["logs"] = True
                    o["lg"] = observed_logs(g, x["log"])
            elif x["stage"] == "exec":
                o["st"] = "fail"
            else:
                o["st"] = "bad"
        r["obs"] = o
        s["runs"].append(r)
    return s


class Case:
    pass


def make_case(seed, mk, debug=False):
    rng = random.Random(seed)
    pf = mk(rng)
    g, f, text, runs = zgen.generate(rng.random(), pf)
    c = Case()
    c.seed, c.g, c.f, c.text, c.runs = seed, g, f, text, runs
    mods = {g.paths[m] + ".zok": t for m, t in text.items() if m != "main"}
    c.job = {"kind": "prog", "f": fname(pf.p), "src": text["main"], "main": g.paths["main"] + ".zok", "mods": mods, "debug": debug,
             "runs": [[to_json(g.w, p["_ty"], v) for p, v in zip(f["ps"], a)] for a in runs]}
    if mods:
        c.job["dir"] = os.path.join(vc.scratch("files"), "%s" % seed)
    return c


def validate(cases, name, logs=False, shards=8, timeout=1500):
    """runs the cases for real and validates what was observed; returns (bad, counts)
    bad: [(case index, run, why, expected)]"""
    res = vc.run_jobs([c.job for c in cases], name)
    sessions = [session(i, c.g, c.f, c.text, c.runs, r, logs) for i, (c, r) in enumerate(zip(cases, res))]
    lines, states, dist = vc.tlc_sessions("ZokTrace", sessions, name, shards, timeout)
    bad, counts = [], {"states": dist, "transitions": states, "sessions": 0, "runs": 0, "must_fail": 0, "may_fail": 0}
    for l in lines:
        if l.startswith("##"):
            a, b, c, d = [int(x) for x in l[2:].split("|")]
            counts["sessions"] += 1
            counts["runs"] += b
            counts["must_fail"] += c
            counts["may_fail"] += d
        else:
            i, run, why, exp = l[2:].split("|", 3)
            bad.append((int(i), int(run), why, exp))
    assert counts["sessions"] == len(sessions), (counts, len(sessions))
    for c, r in zip(cases, res):
        c.res = r
    return bad, counts
