"""R01..R06: training.  R01 here: optimizers against Optim.tla."""
import random
from common import *

def nums(xs): return " ".join(repr(float(x)) for x in xs)
def shape(rng):
    while True:
        s = [rng.randint(1, 3) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        n = 1
        for x in s: n *= x
        if n <= 6: return s, n
def grid(rng, lo, hi): return rng.randint(int(lo * 64), int(hi * 64)) / 64

OPT = {"sgd": lambda r: [r.choice([0.1, 0.01, 0.5, 1.0]), r.choice([0.0, 0.5, 0.9, 0.25, -0.5]), r.choice([0.0, 0.0, 0.125, 0.5, 1.0]), r.choice([0, 0, 1])],
       "adagrad": lambda r: [r.choice([0.1, 0.01, 0.5]), r.choice([0.0, 0.0, 0.125, 0.5, 1.0])],
       "rmsprop": lambda r: [r.choice([0.1, 0.01, 0.5]), r.choice([0.9, 0.5, 0.75, 0.99]), r.choice([0.0, 0.0, 0.125, 0.5])],
       "adadelta": lambda r: [r.choice([0.9, 0.5, 0.95, 0.75])],
       "adam": lambda r: [r.choice([0.1, 0.01, 0.5]), r.choice([0.9, 0.5, 0.75]), r.choice([0.99, 0.9, 0.5, 0.95])],
       "gd": lambda r: [r.choice([0.1, 0.01, 1.0, 0.5]), r.choice([0.0, 0.5, 0.9])]}

def optim_program(rng, kind, steps=0):
    ev, sh = [], {}
    q = 0 if steps else rng.random(); long, wide, many = q < 0.05, 0.05 <= q < 0.08, 0.08 <= q < 0.1
    for i in range(1, (1 if long or wide else rng.randint(7, 14) if many else rng.choice([1, 1, 2, 2, 3, 4])) + 1):
        s, n = shape(rng)
        if long or many: s = [rng.randint(1, 2)]; n = s[0]
        if wide: s = rng.choice([[70], [8, 9], [3, 4, 7], [130]]); n = 1; [n := n * x for x in s]
        sh[i] = n
        ev.append(f"var {i} {int(rng.random() < 0.85)} {len(s)} {' '.join(map(str, s))} {nums(grid(rng, -3, 3) for _ in range(n))}")
    losses = {}
    kinds = [kind] + ([rng.choice(list(OPT))] if rng.random() < 0.3 and not long and not wide else [])
    for o, k in enumerate(kinds, 1):
        vs = [v for v in sh if rng.random() < 0.85] or [rng.choice(list(sh))]
        vs += [v for v in vs if rng.random() < 0.2]
        rng.shuffle(vs)
        losses[o] = vs; ev.append(f"loss {o} {len(vs)} {' '.join(map(str, vs))}")
    for o, k in enumerate(kinds, 1):
        p = OPT[k](rng); ev.append(f"opt {o} {o} {k} {rng.randint(0, 1)} {rng.choice([1, 1, 2, 4, 7])} {len(p)} {nums(p)}")
        style = rng.choice(["any", "any", "const", "sparse", "tiny"])
        const = None
        for _ in range(steps or rng.choice([20, 30, 45, 60]) if long else rng.randint(1, 2) if wide else rng.choice([1, 2, 3, 4, 5, 6, 9]) if len(kinds) == 1 else rng.randint(1, 4)):
            c = []
            for v in losses[o]:
                if style == "any": c.append([rng.choice([grid(rng, -4, 4), grid(rng, -4, 4), float(rng.randint(-9, 9))]) for _ in range(sh[v])])
                elif style == "sparse": c.append([rng.choice([0.0, 0.0, grid(rng, -4, 4)]) for _ in range(sh[v])])
                elif style == "tiny": c.append([rng.choice([-1, 1]) * rng.choice([1, 2, 3, 5]) * 2.0 ** -rng.choice([8, 10, 13, 16, 20]) for _ in range(sh[v])])
                else: c.append([grid(rng, -4, 4) for _ in range(sh[v])])
            if style == "const": c = const = const or c
            ev.append(f"step {o} {o} {' '.join(nums(x) for x in c)} {rng.choice([0, 0, 0, 1, 2])}")
    return " ; ".join(ev)

def r01(c, rng):
    exes = build_all([("h_optim", ["h_optim.cc"], []), ("h_optimf", ["h_optim.cc"], ["-DVT=float"])])
    cfg = open(SPEC + "/OptimMC.cfg").read()
    c.model("OptimMC", model_check("OptimMC", consts=cfg.replace("Depth = 5", "Depth = 6") if THOROUGH else cfg))
    for m in ("forget", "rate"):
        t = tlc("OptimMC", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("OptimMC does not distinguish the mutant " + m + t.out[-400:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")
    val_kw = {"cfg": "Replay.cfg"}; allrecs = []; kinds = {}
    for drv in exes:
        progs = {}
        for k in OPT: progs[len(progs) + 1] = optim_program(rng, k, rng.randint(600, 700) if THOROUGH else rng.randint(262, 300))   # beyond a byte
        for k in OPT:
            for _ in range(500 if THOROUGH else 90): progs[len(progs) + 1] = optim_program(rng, k)
        def keyfn(r, p):
            m = re.search(r": (\w+) step (\d+) ", r.get("text", ""))
            return f"h_optim:{m[1] if m else r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}"
        recs, _ = conform(c, drv, exes[drv], progs, "OptimTrace", lambda r: True, keyfn=keyfn, val_kw=val_kw)
        allrecs += list(recs.values())
    def corrupt(r):
        for e in reversed(r["ev"]):
            if e["op"] == "step":
                for v in e["vs"]:
                    for u in v["u"]:
                        if u[0] and u[1] > -10: u[0] = -u[0]; return r
    canary(c, "h_optim", allrecs, "OptimTrace", corrupt, val_kw=val_kw)
    for r in allrecs:
        for e in r["ev"]:
            if e["op"] == "opt": kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    c.cov["optimizers_run"] = kinds
    c.assumptions = ["changes are compared to a relative 5e-5 (float and double)", "optimizers are used one after the other, not alternating", "mostly at most 4 variables of 6 elements and 9 steps; some histories of 60 and of 300 steps, of 14 variables, of 130 elements"]

# ------------------------------------------------------------------ R03, R04: training loops
QUIET = ("evaluate", "predict", "predict_model", "forward", "phase")
def fit_program(rng):
    """models, compiled models and a history of calls"""
    ev, info, cms = [], {}, {}
    nv = 0; single = rng.random() < 0.6
    for m in range(1, 2 if single else 3):
        ins = rng.choice([[1], [2], [3], [4], [2, 2], [1, 3], [2, 1], [1, 2, 2]]); outs = rng.choice([[1], [1], [2], [3], [1, 2], [2, 1]])
        k = 1; o = 1
        for x in ins: k *= x
        for x in outs: o *= x
        bias = rng.random() < 0.6
        nv += 1; w = nv; ev.append(f"var {w} {int(rng.random() < 0.9)} 2 {k} {o} {nums(rng.randint(-3, 3) for _ in range(k * o))}")
        b = 0
        if bias: nv += 1; b = nv; bs = rng.choice([[o], [1, o]]); ev.append(f"var {b} {int(rng.random() < 0.8)} {len(bs)} {' '.join(map(str, bs))} {nums(rng.randint(-3, 3) for _ in range(o))}")
        ev.append(f"model {m} {len(ins)} {' '.join(map(str, ins))} {w} {b} {len(outs)} {' '.join(map(str, outs))}"); info[m] = (ins, outs, k, o)
    two = rng.random() < 0.25
    for m in info:
        for c in ([m] if not (two and single) else [m, m + 1]):
            ob = rng.choice([1, 1, 2, 4]); mom = int(single and not two and rng.random() < 0.3); cms[c] = m
            ev.append(f"compile {c} {m} {ob * rng.choice([1, 1, 2])} {mom} {ob} {int(mom and rng.random() < 0.4)}")
    budget = 40; many = rng.random() < 0.06 and not any(e.startswith("compile") and e.split()[4] == "1" for e in ev)
    def data(c, n, gt=True):
        ins, outs, k, o = info[cms[c]]
        t = f"{1 + len(ins)} {n} {' '.join(map(str, ins))} {nums(rng.randint(-2, 2) for _ in range(n * k))}"
        if gt: t += f" {1 + len(outs)} {n} {' '.join(map(str, outs))} {nums(rng.randint(-2, 2) for _ in range(n * o))}"
        return t
    for _ in range(rng.choice([2, 3, 4, 5, 6])):
        c = rng.choice(list(cms)); k = rng.choice(["fit", "fit", "fit", "evaluate", "train", "predict", "predict_model", "step", "forward", "phase"])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13])
        bs = rng.choice([1, 1, 2, 2, 3, 4, 5]); bs = min(bs, n)
        if many: n = rng.choice([16, 20, 33, 50, 64, 100]); bs = min(n, rng.choice([4, 7, 10, 16, 17, 32, 33, 64]))
        if k == "fit":
            ep = rng.choice([1, 1, 2, 3])
            while ep * (n // bs) > budget: n = max(bs, n // 2); ep = 1
            budget -= min(budget - 1, ep * (n // bs))
            ev.append(f"fit {c} {bs} {ep} {rng.choice([0, 0, 1, 1, 2, 2, 3, 4])} {rng.randint(0, 1)} {data(c, n)}")
        elif k == "evaluate": ev.append(f"evaluate {c} {bs} {data(c, n)}")
        elif k in ("train", "step"): ev.append(f"{k} {c} {data(c, rng.randint(1, 4))}")
        elif k == "phase": ev.append(f"phase {rng.randint(0, 1)}")
        else: ev.append(f"{k} {c} {data(c, rng.randint(1, 5), False)}")
    return " ; ".join(ev)

def stripped(text):
    """the history without the calls that only predict"""
    return " ; ".join(e for e in text.split(" ; ") if e.split()[0] not in QUIET)

def fit_model(c):
    cfg = open(SPEC + "/FitMC.cfg").read()
    c.model("FitMC", model_check("FitMC", consts=cfg.replace("{5}", "{1, 4, 7}") if THOROUGH else cfg))
    for m in ("split", "learn", "stuck", "phase"):
        t = tlc("FitMC", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("FitMC does not distinguish the mutant " + m + t.out[-400:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")

LOOPS = {"batches", "outputs", "updates", "losses", "variables", "data"}
PHASES = {"phase", "restored"}
def fit_traces(c, rng, prop):
    exes = build_all([("h_model", ["h_model.cc"], []), ("h_modelf", ["h_model.cc"], ["-DVT=float"])])
    val_kw = {"cfg": "Replay.cfg"}
    for drv in exes:
        progs = {i: fit_program(rng) for i in range(1, (2500 if THOROUGH else 350) + 1)}
        twin = {}
        if prop == "R04":                       # what also goes wrong without the predictions is not a matter of interleaving
            recs = run_programs(exes[drv], {i: stripped(t) for i, t in progs.items()})
            rej, t = validate("FitTrace", list(recs.values()), **val_kw)
            c.traced(drv + "-stripped", list(recs.values()), t)
            twin = {r["id"] for r in rej} | {i for i, r in recs.items() if r.get("crash")} | (set(progs) - set(recs))
            owns = lambda r: bool(PHASES & set(r["why"])) or r["id"] not in twin
        else: owns = lambda r: bool(LOOPS & set(r["why"]))
        recs, _ = conform(c, drv, exes[drv], progs, "FitTrace", owns, keyfn=lambda r, p: f"h_model:{r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}",
                          crash_owner=lambda r: prop == "R03" or r["id"] not in twin, val_kw=val_kw)
        def corrupt(r):
            for e in r["ev"]:
                if e["op"] == "fit" and e["us"] and e["e1"] and prop == "R03": e["us"][-1][0] += 1; return r
                if e["op"] in ("evaluate", "predict") and e["xs"] and prop == "R04": e["ph"] = 0; return r
        canary(c, drv, list(recs.values()), "FitTrace", corrupt, val_kw=val_kw)
        for r in recs.values():
            for e in r["ev"]:
                if e["op"] in ("fit", "evaluate", "train", "step", "predict", "predict_model", "forward"): c.cov.setdefault("calls", {}).setdefault(e["op"], 0); c.cov["calls"][e["op"]] += 1
    c.assumptions += ["linear models over the integers, at most 13 (some 100) samples, 40 batches; validation splits that are multiples of a quarter", "momentum only with a single compiled model"]

def r03(c, rng): fit_model(c); fit_traces(c, rng, "R03")

# ------------------------------------------------------------------ R05, R06 (and parts of R04, G07): phase dependent operators
DROPS, NORMS = ["dropout", "dropout_alias", "Dropout"], ["bn", "batch_normalization", "BatchNormalization"]
def phase_program(rng, what, isfloat):
    """a chain of stages, then runs in both phases with changing batches"""
    kinds = {"R05": DROPS, "R06": NORMS if isfloat else NORMS[:2], "slide": ["slide"], "R04": DROPS + (NORMS if isfloat else NORMS[:2]) + ["slide"]}[what]
    n = 1 if what == "slide" else rng.choice([1, 1, 1, 2, 2, 3])
    st = [rng.choice(kinds) for _ in range(n)]
    big = what in ("R05", "R04") and rng.random() < 0.06
    if big: st = [rng.choice(DROPS)]
    norm, slide = any(k in NORMS for k in st), "slide" in st
    lim = 48 if big or slide or rng.random() < 0.94 else 200
    ch = rng.choice([5, 6, 8, 12, 17]) if lim > 48 else rng.choice([9, 10]) if slide and rng.random() < 0.12 else rng.choice([1, 2, 2, 3, 4])
    def extent(rank):
        while True:
            s = [rng.choice([1, 2, 2, 3, 4] if lim == 48 else [1, 2, 3, 4, 5, 7, 9]) for _ in range(rank - 1)] + ([ch] if norm or slide or rng.random() < 0.5 else [rng.randint(1, 4)])
            k = 1
            for x in s: k *= x
            if k <= lim: return s, k
    rank = 4 if slide else rng.choice([2, 2, 3, 4]) if norm else rng.choice([1, 2, 2, 3, 4])
    base, _ = extent(rank)
    sample = base[1:] if rank > 1 else [ch]                # inputs are declared by the shape of a sample
    ev = [f"input {len(sample)} {' '.join(map(str, sample))}"]
    nv = 0
    if len(st) > 1 and rng.random() < 0.5: st[rng.randrange(1, len(st))] = st[0]
    used = {}
    for i, k in enumerate(st, 1):
        own = i if k in ("Dropout", *NORMS[1:]) or k not in used or rng.random() < 0.4 else used[k][0]
        p = grid(rng, 0.1, 0.8) if k in DROPS else rng.choice([0.5, 0.75, 0.9, 0.95, 0.98, 0.25, 0.0]) if k in NORMS else rng.choice([1, 1, 2, 3])
        if big: p = rng.choice([0.5, 0.25, 0.75])
        if own != i: p = used[k][1]
        used[k] = (own, p)
        ev.append(f"stage {k} {float(p)!r} {ch} {own}")
        if k in NORMS[1:]:
            nv += 1
            if rng.random() < 0.6: ev.append(f"set {nv} {nums([grid(rng, -2, 2) for _ in range(2 * ch)])}")
    ph = 1
    shape = base
    for _ in range(1 if big else rng.choice([2, 3, 4, 5, 6, 8])):
        if rng.random() < 0.4: ph = 1 - ph
        if big: ph = 1
        c = rng.random()
        if big: shape = rng.choice([[20, 12], [250], [4, 8, 8], [210, 1]])
        elif c < 0.35: shape = [rng.choice([1, 2, 3, 4, 5, 6] if lim == 48 else [1, 2, 5, 8, 16, 25])] + shape[1:] if len(shape) > 1 or not norm else shape
        elif c < 0.45 and what != "R06": shape, _ = extent(rank)
        k = 1
        for x in shape: k *= x
        if k > lim and not big: shape, k = extent(rank)
        style = rng.choice(["any", "any", "any", "const", "int", "zeros"])
        v = [rng.choice([-1, 1]) * grid(rng, 0.125, 4) for _ in range(k)]
        if style == "const": v = [float(rng.randint(-3, 3) or 2)] * k
        if style == "int": v = [float(rng.randint(-5, 5)) for _ in range(k)]
        if style == "zeros": v = [x if rng.random() < 0.7 else 0.0 for x in v]
        back = int(ph == 1 and rng.random() < 0.7 or (ph == 0 and not norm and not slide and rng.random() < 0.5))
        ev.append(f"run {ph} {back} {len(shape)} {' '.join(map(str, shape))} {nums(v)}" + (" " + nums([grid(rng, -3, 3) for _ in range(k)]) if back else ""))
        if nv and rng.random() < 0.15: ev.append(f"set {rng.randint(1, nv)} {nums([grid(rng, -2, 2) for _ in range(2 * ch)])}")
    return " ; ".join(ev)

PHASEOWN = {"R05": {"dropout", "dropgrad"}, "R06": {"norm", "normgrad", "layer"}, "R04": {"otherphase"}, "slide": {"slide", "slidegrad"}}
def phase_laws(c):
    cfg = open(SPEC + "/PhaseLaws.cfg").read()
    c.model("PhaseLaws", model_check("PhaseLaws", consts=cfg.replace("Depth = 3", "Depth = 4") if THOROUGH else cfg))
    for m in ("constant", "predict"):
        t = tlc("PhaseLaws", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("PhaseLaws does not distinguish the mutant " + m + t.out[-400:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")

def phase_traces(c, rng, what, count):
    exes = build_all([("h_phase", ["h_phase.cc"], []), ("h_phasef", ["h_phase.cc"], ["-DVT=float", "-DISFLOAT"])])
    val_kw = {"cfg": "Replay.cfg"}
    for drv in exes:
        progs = {i: phase_program(rng, what, drv.endswith("f")) for i in range(1, count + 1)}
        def keyfn(r, p): return f"h_phase:{r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}"
        recs, _ = conform(c, drv, exes[drv], progs, "PhaseTrace", lambda r: bool(PHASEOWN[what] & set(r["why"])), keyfn=keyfn, crash_owner=lambda r: what != "R04", val_kw=val_kw)
        def corrupt(r):
            for e in reversed(r["ev"]):
                if e["op"] == "run" and (e["ph"] == 0 or what != "R04"):
                    d = e["f"][1]["d"]
                    for x in d:
                        if x[0] and x[1] > -9: x[0] = -x[0]; return r
        canary(c, drv, list(recs.values()), "PhaseTrace", corrupt, val_kw=val_kw)
        for r in recs.values():
            for e in r["ev"]:
                if e["op"] == "stage": c.cov.setdefault("stages", {}).setdefault(e["k"], 0); c.cov["stages"][e["k"]] += 1

def r05(c, rng):
    phase_laws(c); phase_traces(c, rng, "R05", 3000 if THOROUGH else 500)
    c.assumptions += ["at most three stages and eight runs per program", "that about the right part of the elements is dropped is tested on 200 and more elements with ten standard deviations of slack"]
def r06(c, rng):
    phase_laws(c); phase_traces(c, rng, "R06", 2500 if THOROUGH else 400)
    c.assumptions += ["at most 48 (some 200) elements and eight runs per program", "a prediction before any training passes the input on unchanged, running averages start from zero"]
def r04(c, rng): fit_model(c); fit_traces(c, rng, "R04"); phase_laws(c); phase_traces(c, rng, "R04", 2000 if THOROUGH else 250)

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    {"R01": r01, "R03": r03, "R04": r04, "R05": r05, "R06": r06}[prop](c, rng)
    return c.finish()
