"""T08: random tensors against Random.tla."""
import random, re
from common import *
U = 100000

def shape(rng, small=False):
    q = rng.random()
    if small or q < 0.25: return [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    while True:
        s = [rng.randint(1, 40) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if len(s) == 1: s[0] = rng.randint(100, 500)
        n = 1
        for x in s: n *= x
        if 100 <= n <= 500: return s

def wide(rng):
    """a large sample, for the power of the statistics"""
    return rng.choice([[rng.randint(3000, 4800)], [rng.randint(30, 60), rng.randint(60, 80)], [2, rng.randint(1000, 2400)]])

def call(rng):
    k = rng.choice(["uniform", "uniform", "uniform01", "normal", "normal", "normal01", "trunc", "trunc", "glorot", "poisson", "poisson"])
    s = wide(rng) if rng.random() < 0.08 else shape(rng); p = []; v = 0
    if k == "uniform": lo = rng.choice([0, -1, -2.5, 1, 3, -4]); p = [lo, lo + rng.choice([0.5, 1, 2, 4, 6.5])]; v = rng.randint(0, 2)
    if k == "uniform01": v = rng.randint(0, 2)
    if k in ("normal", "normal01"): v = rng.randint(0, 2)
    if k == "normal": p = [rng.choice([0, 1, -2, 3.5]), rng.choice([0.5, 1, 2, 0.25, 4])]
    if k == "trunc":
        m, d = rng.choice([0, 1, -2, 0.5]), rng.choice([0.5, 1, 2, 4]); i = rng.randint(-4, 3); p = [m, d, m + i * d / 2, m + rng.randint(i + 1, 4) * d / 2]
    if k == "glorot": s = rng.choice([[rng.randint(1, 40), rng.randint(2, 12)], [rng.randint(30, 60), rng.randint(60, 80)], [rng.randint(1, 12), rng.randint(1, 6), rng.randint(2, 6)]])
    if k == "poisson": p = [rng.choice([0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3, 5, 7.75, 10, 14]) for _ in range(rng.choice([1, 1, 2, 3]))]; v = rng.randint(0, 1)
    return f"draw {k} {v} {len(s)} {' '.join(map(str, s))} {len(p)} {' '.join(str(int(x * U)) for x in p)}".strip()

def program(rng):
    """histories in which seeds and prefixes of calls recur"""
    ev, scripts = [], [[call(rng) for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.3: ev += [call(rng) for _ in range(rng.randint(1, 2))]
    for _ in range(rng.randint(2, 4)):
        ev.append(f"seed {rng.randint(0, 1)} {rng.choice([1, 2, 12345])}")
        s = rng.choice(scripts)
        ev += s[:rng.randint(1, len(s))]
        if rng.random() < 0.2: ev.append(ev[-1])
    return " ; ".join(ev)

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exes = build_all([("h_rand", ["h_rand.cc"], []), ("h_randd", ["h_rand.cc"], ["-DVT=double"])])
    cfg = open(SPEC + "/RandomMC.cfg").read()
    c.model("RandomMC", model_check("RandomMC", consts=cfg.replace("Depth = 6", "Depth = 8") if THOROUGH else cfg))
    for m in ("ignored", "stuck", "reset"):
        t = tlc("RandomMC", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("RandomMC does not distinguish the mutant " + m + t.out[-600:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")
    val_kw = {"cfg": "Replay.cfg"}; recs_all = []; kinds = {}
    for drv in exes:
        progs = {i: program(rng) for i in range(1, (1500 if THOROUGH else 250) + 1)}
        def keyfn(r, p):
            m = re.search(r": (\w+) <<(\d+),", r.get("text", ""))
            return f"h_rand:{m[1] + m[2] if m else r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}"
        recs, _ = conform(c, drv, exes[drv], progs, "RandomTrace", lambda r: True, keyfn=keyfn, val_kw=val_kw)
        recs_all += list(recs.values())
    def corrupt(r):
        seen = {}
        for e in r["ev"]:
            if e["op"] == "draw" and e["k"] in ("uniform01", "trunc") and len(e["d"]) > 20: e["d"] = [e["d"][0]] * len(e["d"]); return r
    canary(c, "h_rand", recs_all, "RandomTrace", corrupt, val_kw=val_kw)
    for r in recs_all:
        for e in r["ev"]:
            if e["op"] == "draw": kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    c.cov["draws"] = kinds
    c.assumptions = ["samples of at most 4800 elements; statistics accepted within seven standard deviations", "values compared in units of 1/100000"]
    return c.finish()
