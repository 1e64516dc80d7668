"""I01: image files and resizing against Image.tla."""
import random
from common import *

NAMES = ["a.png", "b.png", "p.q.png", "a.bmp", "b.bmp", "a.tga", "b.tga", "a.jpg", "b.jpeg", "plain", "x.dat", "a.PNG"]
FILE = {"plain": "plain.png", "x.dat": "x.dat.png", "a.PNG": "a.PNG.png"}
def program(rng):
    ev = []
    if rng.random() < 0.6:
        names = rng.sample(NAMES, rng.randint(1, 4)); done = []
        for _ in range(rng.randint(2, 8)):
            n = rng.choice(names)
            if rng.random() < 0.6 or not done:
                ty = rng.choice(["byte", "byte", "byte", "float", "double", "int"])
                ch = rng.choice([0, 1, 3, 4] if ty == "byte" else [0, 1, 3])
                w, h = rng.choice([1, 2, 3, 4, 5, 7]), rng.choice([1, 2, 3, 4, 5])
                if rng.random() < 0.04: w, h = rng.choice([1, 8, 16, 17, 31, 40]), rng.choice([1, 9, 16, 24, 33])
                flat = "jp" in n or rng.random() < 0.2
                s = f"3 {w} {h} {ch}" if ch else f"2 {w} {h}"
                lo, hi = (0, 255) if ty == "byte" else (lambda a: (a, a + rng.choice([0, 1, 2, 5, 50, 300, 5000])))(rng.choice([-1000, -7, 0, 3]))
                if ty == "byte" and rng.random() < 0.2: lo, hi = rng.choice([(0, 0), (255, 255), (7, 9)])
                ev.append(f"write {ty} {n} {s} {'flat' if flat else rng.choice(['rand', 'rand', 'cols', 'rows'])} {rng.randint(1, 9999)} {lo} {hi} {int(ty == 'byte' and rng.random() < 0.3)} {int(rng.random() < 0.3)}")
                done.append(FILE.get(n, n))
                if rng.random() < 0.6: ev.append("read " + done[-1])
            else: ev.append("read " + rng.choice(done + ["none.png", n]))
    else:
        for _ in range(rng.randint(1, 3)):
            w, h, ow, oh = (rng.choice([1, 2, 3, 4, 5, 6, 8]) for _ in range(4))
            if rng.random() < 0.04: w, h, ow, oh = (rng.choice([1, 7, 12, 16, 20]) for _ in range(4))
            if rng.random() < 0.15: ow, oh = w, h
            ev.append(f"resize {w} {h} {ow} {oh} {rng.choice([1, 3, 4])} {rng.choice(['rand', 'rand', 'flat', 'cols', 'rows'])} {rng.randint(1, 9999)}")
    return " ; ".join(ev)

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exe = build_all([("h_image", ["h_image.cc"], [])])["h_image"]
    cfg = open(SPEC + "/ImageLaws.cfg").read()
    c.model("ImageLaws", model_check("ImageLaws", consts=cfg.replace("Depth = 3", "Depth = 4" if THOROUGH else "Depth = 3")))
    for m in ("bgr", "name"):
        t = tlc("ImageLaws", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("ImageLaws does not distinguish the mutant " + m + t.out[-400:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")
    progs = {k: program(rng) for k in range(1, (15000 if THOROUGH else 3000) + 1)}
    val_kw = {"consts": open(SPEC + "/Replay.cfg").read() + '\nCONSTANT Mutant = "none"\n'}
    recs, _ = conform(c, "h_image", exe, progs, "ImageTrace", lambda r: True, val_kw=val_kw,
                      keyfn=lambda r, p: f"h_image:{r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}")
    def corrupt(r):
        for e in reversed(r["ev"]):
            if e["op"] == "read" and e["d"] and "jp" not in e["name"]: e["d"][-1] ^= 8; return r
            if e["op"] == "resize": e["t"][0] ^= 64; return r
    canary(c, "h_image", list(recs.values()), "ImageTrace", corrupt, val_kw=val_kw)
    kinds = {}
    for r in recs.values():
        for e in r["ev"]: kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    c.cov["events"] = kinds
    c.assumptions = ["images of at most 7 by 5 (some 40 by 33) pixels with 1, 3 or 4 channels; resizing between 1 and 8 (some 20) pixels", "JPEG is lossy: only the shape, and single coloured images up to 4 levels",
                     "the interpolation kernel of the resizing is not specified; its symmetries, constants and channels are", "HDR files are not covered"]
    return c.finish()
