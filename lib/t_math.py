"""G06, G08, G09: functions over real tensors against Math.tla, Loss.tla, Cplx.tla."""
import random
from common import *

OWN = {"value", "gradient", "gradient-batch"}
SRC = ["h_math.cc", "mops_math1.cc", "mops_math2.cc", "mops_act.cc", "mops_loss.cc", "mops_complex.cc"]
ANY = (-6, 6)
# name: (ranges of arguments, arguments beyond them now and then, avoid)
UN = {k: [ANY] for k in "negative square asinh cos sin erf erfc sinh cosh tanh exp exp2 expm1 gaussian sigmoid softsign gelu swish silu tank_shrink mish lisht softplus exponential soft_sign unit_step binary_step sign abs fabs ceil floor trunc round lround llround rint lrint llrint nearbyint relu negative_relu hard_sigmoid selu atan relu6".split()}
UN.update({"acos": [(-0.95, 0.95)], "asin": [(-0.95, 0.95)], "atanh": [(-0.95, 0.95)], "acosh": [(1.05, 9)], "cbrt": [(0.2, 9), (-9, -0.2)], "sqrt": [(0.2, 9)],
           "log": [(0.1, 9), (0.02, 1)], "log2": [(0.1, 9), (0.02, 1)], "log10": [(0.1, 9), (0.02, 1)], "log1p": [(-0.9, 9), (-0.5, 0.5)],
           "tan": [(-1.4, 1.4), (1.8, 4.5)], "inverse": [(0.1, 9), (-9, -0.1)], "softmax": [(-5, 5)], "crelu": [ANY], "cdiv": [(0.25, 9), (-9, -0.25)], "pow": [(0.25, 4), (0.25, 2)]})
BIG = {"asinh": 900, "erf": 9, "erfc": 5, "sinh": 60, "cosh": 60, "tanh": 90, "exp": 60, "exponential": 60, "exp2": 90, "expm1": 60, "gaussian": 9, "sigmoid": 95, "softsign": 900, "gelu": 30,
       "swish": 95, "silu": 95, "tank_shrink": 90, "mish": 95, "lisht": 90, "softplus": 300, "abs": 900, "fabs": 900, "sign": 900, "ceil": 900, "floor": 900, "round": 900, "trunc": 900, "relu": 900, "relu6": 900,
       "negative_relu": 900, "hard_sigmoid": 900, "selu": 60, "elu": 60, "leaky_relu": 900, "prelu": 900, "softmax": 60, "cos": 30, "sin": 30, "atan": 900, "rint": 900, "nearbyint": 900, "lrint": 900, "llrint": 900,
       "lround": 900, "llround": 900, "unit_step": 9, "soft_sign": 9, "binary_step": 9, "heaviside": 30, "negative": 900, "square": 900, "crelu": 900}
SMOOTHBUT = {"cbrt", "sqrt", "log", "log2", "log10", "inverse", "asin", "acos", "atanh", "acosh", "tan", "cdiv", "pow"}

def grid(rng, lo, hi): return rng.randint(int(lo * 64) + (1 if lo * 64 > int(lo * 64) else 0), int(hi * 64)) / 64

def number(rng, k):
    x = rng.random()
    if k not in SMOOTHBUT and k != "log1p" and x < 0.2: return rng.choice([0.0, 0.0, 1.0, -1.0, 6.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 1 / 64, -1 / 64])
    if k in BIG and x < 0.4: return grid(rng, -BIG[k], BIG[k])
    lo, hi = rng.choice(UN.get(k, [ANY]))
    return grid(rng, lo, hi)

def shape(rng, most=9):
    if rng.random() < 0.008: return rng.choice([([70], 70), ([3, 33], 99), ([2, 5, 6], 60), ([2, 2, 2, 2, 2], 32), ([1, 1, 40], 40), ([129], 129)])
    while True:
        s = [rng.randint(1, 4) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        n = 1
        for x in s: n *= x
        if n <= most: return s, n

def tens(s, d): return f"{len(s)} {' '.join(map(str, s))} {' '.join(repr(x) for x in d)}"
def incoming(rng): return [rng.choice([1.0, 1.0, -1.0, 0.0, 2.5, -0.75, grid(rng, -4, 4), grid(rng, -50, 50)]) for _ in range(rng.randint(1, 5))]
def run_event(f, ts, g): return f"run {f} {' '.join(tens(*t) for t in ts)} {len(g)} {' '.join(repr(x) for x in g)}"

def params(rng, k):
    if k == "heaviside": return [rng.choice([0.5, 1.0, 3.0, 10.0, -1.0])]
    if k in ("leaky_relu", "prelu"): return [rng.choice([0.125, 0.25, 0.2, 0.5, 0.01, 0.9])]
    if k == "elu": return [rng.choice([0.25, 0.5, 1.0, 2.0, 0.2])]
    if k == "clip": a = rng.choice([-1.0, 0.0, -2.5, 0.5]); return [a, a + rng.choice([0.5, 1.0, 3.0])]
    if k == "clip_below": return [rng.choice([-1.0, 0.0, 1.5])]
    if k in ("addc", "subc", "csub", "mulc"): return [rng.choice([2.0, -3.0, 0.5, 1.25, 0.0])]
    if k == "cdiv": return [rng.choice([1.0, 2.0, -3.0, 0.5, 0.0])]
    if k == "pow": return [rng.choice([2.0, 3.0, 1.0, -1.0, -2.0, 0.5, -0.5, 1.5, 2.5, 0.25, 5.0])]
    if k == "divc": return [rng.choice([2.0, -4.0, 0.5, 3.0])]
    if k == "equal": return [rng.choice([0.5, 0.25, 1.0])]
    return []

def elem_program(rng, k):
    ev, p = [], params(rng, k)
    for f in range(1, rng.choice([1, 1, 2]) + 1):
        ev.append(f"make {f} {k} {len(p)} {' '.join(map(repr, p))}")
    two = k in ("maximum", "minimum", "atan2", "hypot", "equal", "add", "sub", "mul", "div", "divide", "times")
    for _ in range(rng.randint(1, 4)):
        s, n = shape(rng)
        if k == "softmax" and rng.random() < 0.7: s = [rng.randint(1, 3), rng.randint(1, 4)]; n = s[0] * s[1]
        if two:
            a, b = [], []
            for _ in range(n):
                while True:
                    x, y = (rng.choice([0.0, 1.0, -1.0, 0.5]) if rng.random() < 0.3 else grid(rng, -5, 5) for _ in "xy")
                    if k in ("maximum", "minimum") and rng.random() < 0.2: y = x
                    if k == "equal" and rng.random() < 0.5: y = x + rng.choice([-1, 1]) * p[0] * rng.choice([0.0, 0.5, 1.0, 1.25])
                    if k in ("hypot", "atan2") and abs(x) + abs(y) < 0.25: continue
                    if k == "atan2" and x == 0 and y < 0: continue
                    if k in ("div", "divide") and abs(y) < 0.25: continue
                    break
                a.append(x); b.append(y)
            ts = [(s, a), (s, b)]
        else: ts = [(s, [number(rng, k) * (rng.choice([1, -1]) if k == "pow" and p[0] in (2, 3, 5) else 1) for _ in range(n)])]
        ev.append(run_event(rng.randint(1, f), ts, incoming(rng)))
    return " ; ".join(ev)

LOSSES = ["msle", "squared_loss", "mse", "abs_loss", "mae", "cross_entropy", "bce", "xent", "hinge", "mse_f", "mae_f", "hinge_f", "bce_f", "xent_f"]
def loss_program(rng, k, batch_one):
    p = []
    if k in ("xent", "xent_f"): p = [rng.choice([0.0, 0.0, 0.125, 0.25, 0.1])] + ([1.0] if rng.random() < 0.5 else [])
    elif rng.random() < 0.5: p = [1.0]
    ev = [f"make 1 {k} {len(p)} {' '.join(map(repr, p))}"]
    for _ in range(rng.randint(1, 4)):
        s, n = shape(rng, 12)
        if k in ("xent", "xent_f") : s = [1 if batch_one else rng.randint(1, 3), rng.randint(2, 4)]; n = s[0] * s[1]
        def prob(): return rng.randint(2, 62) / 64
        if k in ("xent", "xent_f"):
            g = [0.0] * n
            for r in range(s[0]): g[r * s[1] + rng.randrange(s[1])] = 1.0
            q = [grid(rng, -5, 5) if rng.random() < 0.9 else grid(rng, -8, 8) for _ in range(n)]
        elif k in ("bce", "bce_f"): g = [rng.choice([0.0, 1.0, prob()]) for _ in range(n)]; q = [prob() for _ in range(n)]
        elif k == "cross_entropy": g = [rng.choice([0.0, 1.0, prob()]) for _ in range(n)]; q = [rng.choice([prob(), grid(rng, 0.1, 3)]) for _ in range(n)]
        elif k in ("hinge", "hinge_f"): g = [rng.choice([-1.0, 1.0]) for _ in range(n)]; q = [rng.choice([1.0, -1.0, 0.0, grid(rng, -3, 3), grid(rng, -3, 3), grid(rng, -3, 3)]) for _ in range(n)]
        elif k == "msle": g = [rng.choice([0.0, grid(rng, -0.5, 5)]) for _ in range(n)]; q = [rng.choice([0.0, grid(rng, -1, 5)]) for _ in range(n)]
        else: g = [grid(rng, -5, 5) for _ in range(n)]; q = [x if rng.random() < 0.15 else grid(rng, -5, 5) for x in g]
        ev.append(run_event(1, [(s, g), (s, q)], [rng.choice([1.0, 1.0, 1.0, -1.0, 0.5, 3.0])]))
    return " ; ".join(ev)

COMPLEX = {"cabs": 2, "cnorm": 2, "cconj": 2, "cpolar": 2, "carg": 2, "cpos": 2, "cneg": 2, "cadd": 4, "csub2": 4, "cmul": 4, "cadde": 3, "eaddc": 3, "csube": 3, "esubc": 3, "cmule": 3, "emulc": 3, "creal": 2, "cimag": 2}
def complex_program(rng, k):
    ev = [f"make 1 {k} 0"]
    for _ in range(rng.randint(1, 4)):
        def vals(n): return [rng.choice([grid(rng, -4, 4), float(rng.randint(-5, 5))]) for _ in range(n)]
        if k in ("cmul", "cmule", "emulc"):
            m, n, q = (rng.randint(1, 3) for _ in range(3))
            if k == "emulc": ts = [([n, q], vals(n * q)), ([n, q], vals(n * q)), ([m, n], vals(m * n))]
            else: ts = [([m, n], vals(m * n)), ([m, n], vals(m * n))] + [([n, q], vals(n * q))] * 1
            if k == "cmul": ts.append(([n, q], vals(n * q)))
        else:
            s, n = shape(rng)
            ts = [(s, vals(n)) for _ in range(COMPLEX[k])]
            if k in ("cabs", "carg"):
                for i in range(n):
                    if abs(ts[0][1][i]) + abs(ts[1][1][i]) < 0.3: ts[0][1][i] = rng.choice([-1.5, 0.75, 2.0])
                    if ts[1][1][i] == 0 and ts[0][1][i] < 0: ts[1][1][i] = 0.5
        ev.append(run_event(1, ts, incoming(rng)))
    return " ; ".join(ev)

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exes = build_all([("h_math", SRC, []), ("h_mathf", SRC, ["-DVT=float"])])
    cfg = open(SPEC + "/MathLaws.cfg").read()
    if prop == "G06":
        c.model("MathLaws", model_check("MathLaws", consts=cfg.replace("Grid = 40", "Grid = 64") if THOROUGH else cfg))
        for m in ("log1p", "mish", "tanh2"):
            if m == "tanh2": continue
            t = tlc("MathLaws", consts=cfg.replace('Mutant = "none"', f'Mutant = "{m}"'))
            if "is violated" not in t.out: raise Infra("MathLaws does not notice a wrong derivative of " + m)
            c.cov.setdefault("negative_models", []).append(f"wrong derivative of {m} is rejected")
    else:
        c.model("LossLaws", model_check("LossLaws"))
    if prop == "G06":
        names = list(UN) + ["heaviside", "leaky_relu", "prelu", "elu", "clip", "clip_below", "addc", "subc", "csub", "mulc", "divc", "maximum", "minimum", "atan2", "hypot", "equal", "add", "sub", "mul", "div", "divide", "times"]
        gen, each = elem_program, (60 if THOROUGH else 14)
    elif prop == "G08": names, gen, each = LOSSES, lambda r, k: loss_program(r, k, r.random() < 0.2), (300 if THOROUGH else 60)
    else: names, gen, each = list(COMPLEX), complex_program, (200 if THOROUGH else 40)
    val_kw = {"cfg": "Replay.cfg"}
    ops, allrecs = {}, []
    for drv in ("h_math", "h_mathf"):
        progs = {}
        for k in names:
            for _ in range(each): progs[len(progs) + 1] = gen(rng, k)
        def keyfn(r, p):
            k = p.split()[2]
            return f"h_math:{k.replace('_f', '') if k in ('xent_f',) else k}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}"
        recs, _ = conform(c, drv, exes[drv], progs, "MathTrace", lambda r: bool(OWN & set(r["why"])), keyfn=keyfn, val_kw=val_kw)
        allrecs += list(recs.values())
    def corrupt(r):
        for e in reversed(r["ev"]):
            y = e["y"][0]["d"]
            if y and y[-1][0] and y[-1][1] > -7: y[-1][0] += 40000 if y[-1][0] > 0 else -40000; y[-1][1] += 1; return r
    canary(c, "h_math", allrecs, "MathTrace", corrupt, val_kw=val_kw)
    for r in allrecs:
        for e in r["ev"]: ops[e["k"]] = ops.get(e["k"], 0) + 1
    c.cov["functions_run"] = ops
    c.assumptions = ["values are compared to a relative 2e-5 and an absolute 3e-6 (1+|x|)(1+|g|), float and double", "arguments on a grid of 1/64 inside the domain, away from poles",
                     "where a function has a kink any value between the one sided derivatives is accepted"]
    return c.finish()
