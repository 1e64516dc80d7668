"""G01..G05, G07: programs over expression graphs against Graph.tla."""
import random, re
from common import *
import gen_graph as gg, gen_model, statics

OWN = {"G10": {"graph-nodes", "graph-edges", "graph-label"}, "M01": {"value", "gradient", "received", "shape", "trained", "frozen", "purity"}, "G01": {"value", "purity"}, "G02": {"gradient", "received"}, "G03": {"shape"}, "G04": {"value", "old", "purity"},
       "G05": {"count", "received", "value"}, "G07": {"value", "gradient"}, "R02": {"trained", "frozen"}}
SRC = ["h_graph.cc", "gmodels.cc", "gops_arith.cc", "gops_elem.cc", "gops_struct.cc", "gops_image.cc"]

STATIC = {"G10": 64, "G01": 24, "G02": 24}
def session_programs(check, rng, limit):
    """every behaviour of Session.tla for four nodes and three actions, as programs for the driver"""
    t = tlc("SessionGen")
    if not t.ok: raise Infra("SessionGen: " + t.out[-1500:])
    out = []
    for l in sorted(set(t.lines)):
        if not l.startswith("SESS "): continue
        dag, hist = l[5:].split(" | ")
        dag = eval(dag.replace("<<", "[").replace(">>", "]")); hist = eval(hist.replace("<<", "[").replace(">>", "]"))
        out.append((dag, hist))
    check.cov["behaviours_of_Session"] = len(out)
    if len(out) > limit: out = rng.sample(out, limit)
    res = []
    for dag, hist in out:
        leaf = [rng.choice(["ph", "var"]) for _ in range(2)]
        ev = []
        def val(): return " ".join(str(rng.randint(-9, 9)) for _ in range(4))
        for k in (1, 2):
            if leaf[k - 1] == "ph": ev += [f"ph {k}", f"bind {k} 2 2 2 4 {val()}"]
            else: ev.append(f"var {k} 2 2 2 4 {val()} 0 0 1")
        cnt, num = {}, {1: 1, 2: 2}
        n = 2
        for k in (3, 4):
            a = [num[x] for x in dag[k - 1]]
            n += 1
            op = rng.choice(["plus", "minus", "mm"]) if len(a) == 2 else rng.choice(["square", "neg", "transpose", "adds"])
            ev.append(f"node {n} {op} {len(a)} {' '.join(map(str, a))} " + ("1 3" if op == "adds" else "0"))
            n += 1
            ev.append(f"node {n} count 1 {n - 1} 0"); num[k] = n
        for h in hist:
            if h > 0: ev.append(rng.choice([f"step {num[h]}", f"step {num[h]}", f"run {num[h]} 0"]))
            elif leaf[-h - 1] == "ph": ev.append(f"bind {-h} 2 2 2 4 {val()}")
            else: ev.append(f"set {-h} 4 {val()}")
        res.append(" ; ".join(ev))
    return res

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    sp, ssrc = statics.programs(random.Random(f"{SEED}-{prop}-static"), STATIC[prop] * (4 if THOROUGH else 1), prop) if prop in STATIC else ({}, [])
    exe = build_all([("h_graph_static", SRC + ssrc, [])])["h_graph_static"] if sp else build_all([("h_graph", SRC, [])])["h_graph"]
    if prop in ("G04", "G05"):
        cfg = open(SPEC + "/Session.cfg").read()
        c.model("Session", model_check("Session", consts=cfg.replace("N = 5", "N = 6") .replace("Depth = 3", "Depth = 2") if THOROUGH else cfg))
        for a in ("ClearCache", "SharedState"):   # the specification must be able to fail
            t = tlc("Session", consts=cfg.replace(f"{a} = TRUE", f"{a} = FALSE"))
            if "is violated" not in t.out: raise Infra("Session does not distinguish " + a)
            c.cov.setdefault("negative_models", []).append(a + " = FALSE is rejected")
    elif prop == "R02":
        cfg = open(SPEC + "/TrainMC.cfg").read()
        c.model("TrainMC", model_check("TrainMC", consts=cfg.replace("Depth = 7", "Depth = 11") if THOROUGH else cfg))
        for a in ("Clear", "MarkOnce", "SkipFrozen"):
            t = tlc("TrainMC", consts=cfg.replace(f"{a} = TRUE", f"{a} = FALSE"))
            if "is violated" not in t.out: raise Infra("TrainMC does not distinguish " + a)
            c.cov.setdefault("negative_models", []).append(a + " = FALSE is rejected")
    elif prop == "M01":
        cfg = open(SPEC + "/ModelLaws.cfg").read()
        c.model("ModelLaws", model_check("ModelLaws", consts=cfg))
        for m in ("own", "hole"):
            t = tlc("ModelLaws", consts=cfg.replace('"none"', f'"{m}"'))
            if "is violated" not in t.out: raise Infra("ModelLaws does not distinguish the mutant " + m)
            c.cov.setdefault("negative_models", []).append(m + " is rejected")
    elif prop == "G10":
        cfg = open(SPEC + "/DrawMC.cfg").read()
        c.model("DrawMC", model_check("DrawMC", consts=cfg.replace("Inner = 2", "Inner = 3") if THOROUGH else cfg))
    else:
        part = "spatial" if prop == "G07" else "plain"
        c.model("GraphLaws(" + part + ")", model_check("GraphLaws", consts=open(SPEC + "/GraphLaws.cfg").read().replace('"all"', f'"{part}"')))
    progs = {}
    n = (12000 if prop != "G07" else 8000) if THOROUGH else (2500 if prop not in ("G07", "G03") else 1800)
    if prop == "G10": n = 0
    progs.update(sp)
    for k in range(n): progs[len(progs) + 1] = gen_model.program(rng) if prop == "M01" else gg.program(rng, prop)
    if prop in ("G04", "G05"):
        for t in session_programs(c, rng, 5000 if THOROUGH else 1200): progs[len(progs) + 1] = t
    def keyfn(r, p):
        m = re.search(r": node \d+ (\S+)", r.get("text", ""))
        return f"h_graph:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}:{m[1] if m else r.get('op')}"
    recs, _ = conform(c, "h_graph", exe, progs, "GraphTrace", lambda r: bool(OWN[prop] & set(r["why"])), keyfn=keyfn)
    def corrupt(r):
        for e in reversed(r["ev"]):
            if prop == "R02" or prop == "M01" and e["op"] == "train":
                if e["op"] != "train": continue
                for v in e["vs"]:
                    if v["d"]: v["d"][0] += 1; return r
                continue
            if prop == "G10":
                if e["op"] == "graph" and e["edges"]: e["edges"].pop(); return r
                continue
            if prop == "G03" and e["op"] == "shape": e["s"][-1] += 1; return r
            if prop == "G02" and e["op"] == "step" and e["g"] and e["g"][0]["d"]: e["d"][0] += 1; return r
            if prop not in ("G02", "G03") and e["op"] in ("run", "step") and e["d"]: e["d"][-1] += 1; return r
    canary(c, "h_graph", list(recs.values()), "GraphTrace", corrupt)
    if prop == "G07":   # random shifts of images
        import t_train
        t_train.phase_laws(c); t_train.phase_traces(c, rng, "slide", 1200 if THOROUGH else 200)
    ops, steps = {}, 0
    for r in recs.values():
        for e in r["ev"]:
            if e["op"] == "node": ops[e["k"]] = ops.get(e["k"], 0) + 1
            steps += e["op"] in ("step", "train")
    c.cov["operators_built"] = ops; c.cov["backpropagations"] = steps
    c.assumptions = ["integer tensors (exact in double) of at most 72, now and then 600 or 2400, elements and rank 5", "gradients are compared where every operator of the graph is differentiable at its input",
                     "graphs of at most about 15 nodes; up to three shapes per place holder and 8 runs per program"]
    return c.finish()
