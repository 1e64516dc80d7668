"""L01: layers against Layers.tla."""
import random, re
from common import *
import gen_layer

OWN = {"value", "gradient", "weights", "shape", "purity"}
def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    F = ["-DVT=float"]
    exe = build_all([("h_layer", ["h_layer.cc", "gops_arith.cc", "gops_elem.cc", "gops_struct.cc"], F)])["h_layer"]
    cfg = open(SPEC + "/LayerLaws.cfg").read()
    c.model("LayerLaws", model_check("LayerLaws", consts=cfg))
    for m in ("mixing", "bias"):
        t = tlc("LayerLaws", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("LayerLaws does not distinguish the mutant " + m + t.out[-400:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")
    progs = {k: gen_layer.program(rng) for k in range(1, (9000 if THOROUGH else 1800) + 1)}
    def keyfn(r, p):
        m = re.search(r": node \d+ (\S+)", r.get("text", ""))
        return f"h_layer:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}:{m[1] if m else r.get('op')}"
    val_kw = {"cfg": "Replay.cfg"}
    recs, _ = conform(c, "h_layer", exe, progs, "LayersTrace", lambda r: bool(OWN & set(r["why"])), keyfn=keyfn, val_kw=val_kw)
    def corrupt(r):
        for e in reversed(r["ev"]):
            if e["op"] in ("run", "step", "predict") and e["d"]: e["d"][-1] += 1; return r
    canary(c, "h_layer", list(recs.values()), "LayersTrace", corrupt, val_kw=val_kw)
    kinds = {}
    for r in recs.values():
        for e in r["ev"]:
            if e["op"] == "layer": kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    c.cov["layers_built"] = kinds
    c.assumptions = ["integer tensors (exact in float) of at most 72, now and then 300, elements; inputs declared with the shape of a sample; batches of at most 3 (large: 9) samples",
                     "BatchNormalization and Dropout are decided under R05 and R06",
                     "Softmax and ELU are compared with the functions of the same names (forward only), which G08 decides"]
    return c.finish()
