"""T01..T06: programs over tensors against TensorMachine."""
import random
from common import *
import gen_tensor as gt

CLASS = {}
for o in "add sub adds sadd subs ssub muls smul divs neg abs emul hmul ediv iadd isub imul idiv iadds isubs imuls idivs mapadd clip".split(): CLASS[o] = "T02"
for o in "mm mminto gemm".split(): CLASS[o] = "T03"
for o in "flip repeat concat repmat reshape reshapein squeeze squeezeax ones zeros oneslike zeroslike linspace astype newv bcast bshape".split(): CLASS[o] = "T04"
for o in "rsum rmean sumax maxax minax meanax varax stdax softmax sum max min amax amin mean var std".split(): CLASS[o] = "T05"
for o in "new copy assign deep fcopy deepinto poke reset resize walk".split(): CLASS[o] = "T06"
ALSO = {"mapadd": {"T06"}, "reshape": {"T06"}, "reshapein": {"T06"}, "squeeze": {"T06"}, "squeezeax": {"T06"}, "clip": {"T06"}, "astype": {"T06"},
        "poke": {"T01"}, "reset": {"T01"}}

def owners(r):
    s = set()
    if "purity" in r["why"]: s.add("T01")
    if "alias" in r["why"]: s |= {"T06", "T01"} if r["op"] in ("reset", "mapadd", "poke", "clip", "iadds", "imuls", "isubs") else {"T06"}
    if "value" in r["why"]: s |= {CLASS[r["op"]]} | ALSO.get(r["op"], set())
    return s

def tlc_programs(check, num, depth):
    """behaviours of the exhaustively checked machine, drawn by TLC's simulator"""
    t = tlc("TensorGen", args=("-simulate", f"num={num}", "-depth", str(6 * depth), "-seed", str(SEED)), workers=1)
    progs = sorted({l[5:] for l in t.lines if l.startswith("PROG ")})
    if len(progs) < num // 4: raise Infra("TLC generated too few programs: " + t.out[-1500:])
    check.cov["programs_drawn_from_the_specification"] = len(progs)
    return progs

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exes = build_all([("h_tensor_d", ["h_tensor.cc"], []), ("h_tensor_f", ["h_tensor.cc"], ["-DVT=float"])][: 2 if (THOROUGH or prop == "T03") else 1])
    if prop in ("T01", "T06"):
        c.model("TensorMC", model_check("TensorMC", consts=open(SPEC + "/TensorMC.cfg").read().replace("Depth = 4", "Depth = 6" if THOROUGH else "Depth = 4")))
    else:
        c.model("TensorLaws", model_check("TensorLaws", consts=open(SPEC + "/TensorLaws.cfg").read().replace("MaxDim = 3", "MaxDim = 3" if THOROUGH else "MaxDim = 2")))
    n = (8000 if THOROUGH else 1500)
    progs = {}
    for k in range(n):
        x = rng.random()
        progs[len(progs) + 1] = gt.program(rng, gt.MIX[prop], rng.randint(6, 14) if x < 0.97 else rng.randint(25, 45), maxsize=rng.choice([12, 24, 36, 36]) if x > 0.04 else rng.choice([80, 150, 300]))
    for k in range(60 if THOROUGH else 16): progs[len(progs) + 1] = gt.big(rng, prop)
    if prop in ("T01", "T06"):
        for t in tlc_programs(c, 3000 if THOROUGH else 300, 8): progs[len(progs) + 1] = t
    for name, exe in exes.items():
        recs, _ = conform(c, name, exe, progs, "TensorTrace", lambda r: prop in owners(r), crash_owner=lambda r: CLASS.get(r.get("op")) == prop)
    def corrupt(r):
        for e in reversed(r["ev"]):
            if e["h"] and e["h"][0]["d"] and e["op"] not in gt_queries: e["h"][0]["d"][-1] += 1; return r
    gt_queries = set()
    canary(c, name, list(recs.values()), "TensorTrace", corrupt)
    ops = {}
    for r in recs.values():
        for e in r["ev"]: ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.cov["operations_executed"] = ops
    c.assumptions = ["elements are integers of magnitude below 1e5 (exact in float and double)", "at most 6 live tensors and 20 operations per program"]
    return c.finish()
