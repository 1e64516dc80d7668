"""U06: views, strided iterators, ranges, enumeration, reversal and storage vectors against View.tla."""
import random
from common import *

def extents(rng, n, lim):
    while True:
        s = [rng.choice([1, 2, 2, 3, 3, 4, 5] + ([7, 9, 16, 20] if lim > 60 else [])) for _ in range(n)]
        p = 1
        for x in s: p *= x
        if p <= lim: return s, p
def seq(x): return f"{len(x)} " + " ".join(map(str, x)) if x else "0"

def program(rng):
    ev = []; kind = rng.random()
    if kind < 0.5: # views of memory
        n = rng.choice([24, 40, 60]) if rng.random() < 0.95 else rng.choice([150, 300]); ev.append(f"mem {n}")
        for _ in range(rng.randint(3, 10)):
            x = rng.random()
            if x < 0.6:
                k = rng.randint(0, 3); d = rng.randint(1, 4) if k < 2 or rng.random() < 0.2 else rng.randint(5, 7)
                if d > 4 and k < 2: k += 2
                if d <= 4 and k == 3: k = 2
                s, p = extents(rng, d, n); off = rng.randint(0, n - p)
                i = [rng.randint(0, e - 1) for e in s]
                ev.append(f"at {k} {off} {seq(s)} {seq(i)}" if rng.random() < 0.4 else f"put {k} {off} {seq(s)} {seq(i)} {rng.randint(100, 999)}")
            else:
                (R, C), p = extents(rng, 2, n); off = rng.randint(0, n - p)
                if x < 0.8: ev.append(f"mat {off} {R} {C} {rng.randint(0, R - 1)} {rng.randint(0, C - 1)} {rng.randint(0, 1)}")
                else:
                    how = rng.randint(0, 2)
                    ev.append(f"colset {off} {R} {C} {rng.randint(0, (R if how == 2 else C) - 1)} {rng.randint(100, 999)} {how}")
    elif kind < 0.65:
        n = 60; ev.append(f"mem {n}")
        for _ in range(rng.randint(1, 3)):
            st = rng.choice([1, 2, 3, 5, 7, -1, -2, -4]); p = rng.randint(0, n - 1); p0 = p; w = []
            for _ in range(rng.randint(1, 12)):
                o = rng.choice(["inc", "dec", "pinc", "pdec", "add", "sub", "plus", "rplus", "minus", "idx", "dist", "cmp", "copy"])
                d = rng.choice([0, 1, 2, 3, 4, -1, -2])
                mv = {"inc": 1, "dec": -1, "pinc": 1, "pdec": -1, "add": d, "sub": -d, "plus": d, "rplus": d, "minus": -d, "idx": d, "cmp": d, "copy": 1}.get(o, 0)
                if not 0 <= p + st * mv < n: continue
                if o in ("inc", "dec", "pinc", "pdec", "add", "sub"): p += st * mv
                w.append(f"{o} {d}")
            ev.append(f"iter {p0} {st} {len(w)} " + " ".join(w))
    elif kind < 0.8:
        for _ in range(rng.randint(2, 6)):
            k = rng.randint(0, 5); a = rng.randint(-4, 9); m = rng.randint(0, 12); jump = rng.randint(0, 5)
            if k == 0: ev.append(f"range 0 0 {m} 1 {jump}")
            elif k in (1, 4): a = abs(a) if k == 4 else a; ev.append(f"range {k} {a} {a + m} 1 {jump}")
            elif k == 2: s = rng.choice([1, 2, 3, -1, -2]); ev.append(f"range 2 {a} {a + s * m} {s} {jump}")
            elif k == 3: s = rng.choice([1, 2, 3, 4, -1, -2, -3]); ev.append(f"range 3 {a} {a + (m if s > 0 else -m)} {s} {jump}")
            else: ev.append(f"range 5 {rng.randint(1, 3)} {rng.randint(0, 200)} {rng.randint(2, 4)} {jump}")
    elif kind < 0.84:
        for _ in range(rng.randint(1, 3)):
            k = rng.randint(0, 6); a = 0 if k == 0 else rng.randint(0 if k == 2 else -4, 9); m = rng.choice([0, 1, 2, 3, 7, 20, 60])
            ev.append(f"tq {k} {a} {a + m} {rng.choice([-2, -1, 0, 1, 20, 39, 40, 41, 42, 80, 200])} {rng.randint(1, 3)} {rng.randint(0, 1)} {rng.choice(['epoch', 'p', 'x{'])}")
    elif kind < 0.9:
        for _ in range(rng.randint(1, 4)): ev.append(f"{rng.choice(['enum', 'rev'])} {rng.randint(0, 3)} " + seq([rng.randint(-9, 50) for _ in range(rng.choice([0, 1, 2, 5, 9] if rng.random() < 0.9 else [30, 70]))]))
    else:
        size = {}
        for _ in range(rng.randint(4, 18)):
            o = rng.choice(["new", "list", "copy", "move", "assign", "massign", "set", "size", "clear"]); k = rng.randint(1, 4); v = rng.randint(1, 99)
            if not size or o in ("new", "list"):
                o = o if o in ("new", "list") else "new"; s = rng.choice([0, 1, 2, 3, 5, 8] if rng.random() < 0.9 else [16, 33, 64, 100]) if o == "new" else rng.randint(0, 2)
                size[k] = s if o == "new" else (0, 1, 4)[s]
            elif o in ("copy", "move"): s = rng.choice(list(size)); n = size[s]; size.update({s: n if o == "copy" or s == k else 0}); size[k] = n
            elif o in ("assign", "massign"):
                k = rng.choice(list(size)); s = rng.choice(list(size))
                if o == "massign" and k == s: o = "assign"
                n = size[s]
                if o == "massign": size[s] = 0
                size[k] = n
            else:
                k = rng.choice(list(size))
                if o == "set":
                    if not size[k]: continue
                    s = rng.randint(0, size[k] - 1)
                elif o == "size": s = rng.choice([0, 1, 3, 4, 7, size[k]] if rng.random() < 0.9 else [size[k] + 1, 2 * size[k], 50, 90]); size[k] = s
                else: s = 0; size[k] = 0
            ev.append(f"vec.{o} {k} {s} {v}")
    return " ; ".join(ev)

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exe = build_all([("h_view", ["h_view.cc"], [])])["h_view"]
    cfg = open(SPEC + "/ViewLaws.cfg").read()
    c.model("ViewLaws", model_check("ViewLaws", consts=cfg.replace("MaxExt = 3", "MaxExt = 4" if THOROUGH else "MaxExt = 3")))
    for m in ("stride", "walk"):
        t = tlc("ViewLaws", consts=cfg.replace('"none"', f'"{m}"'))
        if "is violated" not in t.out: raise Infra("ViewLaws does not distinguish the mutant " + m + t.out[-400:])
        c.cov.setdefault("negative_models", []).append(m + " is rejected")
    progs = {k: program(rng) for k in range(1, (20000 if THOROUGH else 4000) + 1)}
    val_kw = {"consts": open(SPEC + "/Replay.cfg").read() + '\nCONSTANT Mutant = "none"\n'}
    recs, _ = conform(c, "h_view", exe, progs, "ViewTrace", lambda r: True, val_kw=val_kw,
                      keyfn=lambda r, p: f"h_view:{r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}")
    def corrupt(r):
        for e in reversed(r["ev"]):
            if e["op"] == "put": e["m"][-1] += 1; return r
            if e["op"] == "mat": e["col"][-1] += 1; return r
    canary(c, "h_view", list(recs.values()), "ViewTrace", corrupt, val_kw=val_kw)
    kinds = {}
    for r in recs.values():
        for e in r["ev"]: kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    c.cov["events"] = kinds
    c.assumptions = ["indices inside the shape of the view; the memory is surrounded by guard cells", "views of 1 to 7 dimensions over at most 60, now and then 300, cells",
                     "the transposed form of the matrix view is not covered: it has no documented meaning"]
    return c.finish()
