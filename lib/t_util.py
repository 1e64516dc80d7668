"""U01..U04: the caching allocator, parallel loops, LZW, the IDX reader."""
import random
from common import *

OPS = {"U01": {"alloc", "failalloc", "dealloc", "gc", "destroy"}, "U02": {"par", "each"}, "U03": {"lzw"}, "U04": {"idx"}}

def alloc_program(rng):
    ev, live, nxt, returned = [], {}, 1, 0
    sizes = rng.sample([8, 16, 24, 40, 64, 96, 128, 256, 1000, 4096, 5000, 8192, 12288, 65536], rng.randint(1, 5))
    long = rng.random() < 0.04 # long histories with many blocks in use or in reserve
    if long: sizes = sizes[:2] + [rng.randint(1, 200) * 8 for _ in range(rng.randint(0, 30))] + ([rng.randint(100_000, 400_000) * 8] if rng.random() < 0.5 else [])
    rate = rng.choice([0.4, 0.5, 0.6, 0.8]) if long else 0.5
    for _ in range(rng.randint(100, 300) if long else rng.randint(4, 40)):
        x = rng.random()
        if long and x >= 0.9 and rng.random() < 0.8: x = rate + (0.9 - rate) * rng.random()
        if long and x < rate and len(live) > 60: x = 0.85
        if x < rate or not live:
            kind = rng.randint(0, 3)
            n = rng.choice(sizes) // 8 * 8
            if rng.random() < 0.15 and returned:
                n = rng.choice([4096, 8192, 20480, 20488])
                ev.append(f"failalloc {nxt} {n} {kind}")
            else:
                if kind in (0, 3) and rng.random() < 0.2: n = max(1, n + rng.randint(-7, 7))
                ev.append(f"alloc {nxt} {n} {kind}")
            live[nxt] = 1; nxt += 1
        elif x < 0.9:
            i = rng.choice(list(live)) if rng.random() < 0.7 else max(live)
            del live[i]; ev.append(f"dealloc {i}"); returned += 1
        else: ev.append("gc")
    # failing allocations need something in reserve: put a returned block of an unusual size first
    out, k = [], 100000
    for e in ev:
        if e.startswith("failalloc"):
            out += [f"alloc {k} {rng.choice([7, 33, 4099, 9001])} 0", f"dealloc {k}"]; k += 1
        out.append(e)
    out.append("destroy")
    return " ; ".join(out)

def par_program(rng):
    ev = []
    for _ in range(rng.randint(2, 6)):
        cores = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 8, 16, 33])
        slow = rng.random() < 0.4
        n = rng.choice([0, 1, 2, 3, cores, cores + 1, max(0, cores - 1), 2 * cores, 2 * cores + 1, rng.randint(0, 20), rng.randint(0, 150), rng.randint(0, 150) if slow else rng.randint(0, 3000)])
        if not slow and rng.random() < 0.02: n = rng.choice([rng.randint(3000, 20000), 4096, 8192, 10000, 16384])
        if rng.random() < 0.55:
            t, back = rng.randint(0, 2), rng.random() < 0.35
            first = rng.choice([0, 1, 3, 100]) if back else rng.choice([0, 0, 1, 2, 5, 17, 255, 1000, 60000])
            if t == 2 and not back: first = min(first, 65535 - n)
            thr = rng.choice([0, 1, 2, 7, 8, 8, 8, n, max(0, n - 1), 100])
            ev.append(f"par {t} {int(back)} {first} {n} {thr} {cores} {int(slow)}")
        else:
            ev.append(f"each {min(n, 8000) if rng.random() < 0.1 else n % 700} {rng.randint(1, 4)} {cores} {int(slow)}")
    return " ; ".join(ev)

def lzw_programs(rng, n):
    out = ["lzw bytes 0"] + [f"lzw bytes 1 {k}" for k in (0, 255, 128, 127, 10, 26, 13)]
    def small():
        x = rng.random(); m = rng.choice([1, 2, 3, 5, 8, 20, 60, 200, 380])
        if x < 0.4: return "lzw bytes %d %s" % (m, " ".join(str(rng.choice([0, 255, 97, 98])) for _ in range(m)))
        if x < 0.6: return f"lzw random {rng.randint(1, 10**6)} {rng.choice([1, 2, 3, 10, 256])} {rng.randint(0, 255)} {m}"
        if x < 0.8: return "lzw period %s %d" % (lambda p: f"{len(p)} {' '.join(map(str, p))}")([rng.choice([0, 1, 128, 255]) for _ in range(rng.randint(1, 6))]) if False else \
            (lambda p: f"lzw period {len(p)} {' '.join(map(str, p))} {m}")([rng.choice([0, 1, 128, 255]) for _ in range(rng.randint(1, 6))])
        return f"lzw drift {rng.randint(1, 10**6)} {m}"
    for _ in range(n): out.append(" ; ".join(small() for _ in range(rng.randint(1, 4))))
    # lengths at which the width of the codes changes and the stream ends
    for k in range(8, 13):
        for d in range(-3, 4): out.append(f"lzw random {rng.randint(1, 10**6)} 256 0 {2**k + d - 256 if 2**k + d > 256 else 1}")
    for _ in range(n // 4):
        m = rng.choice([257, 511, 512, 513, 1023, 1025, 5000, 40000, 100000, 65536])
        out.append(rng.choice([f"lzw random {rng.randint(1, 10**6)} {rng.choice([1, 2, 4, 64, 256])} {rng.randint(0, 255)} {m + rng.randint(-2, 2)}",
                               f"lzw drift {rng.randint(1, 10**6)} {m}", f"lzw period 3 97 98 99 {m}", f"lzw period 1 0 {m}"]))
    return out

def lzw_big(rng, k):
    """inputs that fill the dictionary of 2^20 entries once or several times: lengths around the moment of the reset"""
    out = []
    for _ in range(k):
        out.append(rng.choice([f"lzw random {rng.randint(1, 10**6)} 256 0 {rng.randint(2_600_000, 3_400_000)}", f"lzw random {rng.randint(1, 10**6)} {rng.choice([2, 20, 100])} {rng.randint(0, 255)} {rng.randint(5_000_000, 9_000_000)}",
                               f"lzw drift {rng.randint(1, 10**6)} {rng.randint(8_000_000, 12_000_000)}"]))
    return out

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exe = build_all([("h_util", ["h_util.cc"], [])])["h_util"]
    def cfg(m): return open(f"{SPEC}/{m}.cfg").read()
    def negative(m, a, b):
        t = tlc(m, consts=cfg(m).replace(a, b))
        if "is violated" not in t.out: raise Infra(f"{m} does not distinguish {b}: " + t.out[-500:])
        c.cov.setdefault("negative_models", []).append(f"{m}: {b} is rejected")
    run_kw, val_kw = {}, {"cfg": "Replay.cfg", "timeout": 300}
    if prop == "U01":
        c.model("AllocMC", model_check("AllocMC", consts=cfg("AllocMC").replace("Depth = 7", "Depth = 8" if THOROUGH else "Depth = 7")))
        negative("AllocMC", "MatchSize = TRUE", "MatchSize = FALSE"); negative("AllocMC", "ClearOnGc = TRUE", "ClearOnGc = FALSE")
        texts = [alloc_program(rng) for _ in range(6000 if THOROUGH else 1500)]
    elif prop == "U02":
        c.model("ParLoop", model_check("ParLoop", consts=cfg("ParLoop").replace("Max = 10", "Max = 13" if THOROUGH else "Max = 10")))
        negative("ParLoop", "Clamp = TRUE", "Clamp = FALSE"); negative("ParLoop", "Join = TRUE", "Join = FALSE")
        texts = [par_program(rng) for _ in range(4000 if THOROUGH else 1200)]
    elif prop == "U03":
        c.model("LzwMC", model_check("LzwMC", consts=cfg("LzwMC").replace("MaxLen = 12", "MaxLen = 15" if THOROUGH else "MaxLen = 12")))
        c.model("LzwMC(4 letters)", model_check("LzwMC", consts=cfg("LzwMC").replace("A = 2", "A = 4").replace("W0 = 2", "W0 = 3").replace("MaxLen = 12", "MaxLen = 8" if THOROUGH else "MaxLen = 7").replace("{4, 5,", "{6, 7,")))
        texts = lzw_programs(rng, 1200 if THOROUGH else 300) + lzw_big(rng, 40 if THOROUGH else 8)
        run_kw = {"prog_timeout": 200}
    else:
        texts = [f"idx {k % 2} {rng.randint(1, 10**6)} {rng.choice([0, 1, 2, 3, 10, 17])} {rng.choice([0, 1, 2, 5, 11])}" for k in range(400 if THOROUGH else 120)]
        texts += [f"idx {k % 2} {rng.randint(1, 10**6)} {a} {b}" for k, (a, b) in enumerate([(100, 128), (255, 64), (257, 256), (256, 1), (1, 300), (rng.randint(300, 1000), 100), (1000, 12), (100, 1000), (rng.randint(2000, 5000), 20)])]
        texts += [f"idx 0 {rng.randint(1, 10**6)} {65536 + rng.randint(1, 4000)} 3", f"idx 1 {rng.randint(1, 10**6)} 2 {65536 + rng.randint(1, 4000)}",
                  f"idx 1 {rng.randint(1, 10**6)} {65536 + rng.randint(1, 4000)} 1", f"idx 0 {rng.randint(1, 10**6)} 1 {65536 + rng.randint(1, 4000)}"] # more than sixteen bits count
        run_kw = {"prog_timeout": 200}
    progs = {k + 1: t for k, t in enumerate(texts)}
    recs, _ = conform(c, "h_util", exe, progs, "UtilTrace", lambda r: r["op"] in OPS[prop], run_kw=run_kw, val_kw=val_kw,
                      keyfn=lambda r, p: f"h_util:{r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}")
    def corrupt(r):
        for e in reversed(r["ev"]):
            if prop == "U01" and e["op"] == "alloc" and e["fresh"] == 0: e["a"][1] += 64; return r
            if prop == "U02" and e["op"] == "par" and e["n"] > 0: e["c"][e["off"] + e["n"] - 1] += 1; return r
            if prop == "U03" and e["n"] > 2: e["diff"] = 1; return r
            if prop == "U04" and e["parts"][0]["lab"]: e["parts"][0]["lab"][-1] = 1 - e["parts"][0]["lab"][-1]; return r
    canary(c, "h_util", list(recs.values()), "UtilTrace", corrupt, val_kw=val_kw)
    if prop == "U01": c.cov["reused_blocks"] = sum(e["op"] == "alloc" and not e["fresh"] for r in recs.values() for e in r["ev"])
    if prop == "U02": c.cov["loops"] = sum(len(r["ev"]) for r in recs.values())
    if prop == "U03": c.cov["bytes_round_tripped"] = sum(e["n"] for r in recs.values() for e in r["ev"]); c.cov["longest"] = max(e["n"] for r in recs.values() for e in r["ev"])
    c.assumptions = {"U01": ["single threaded use of the allocator, as the library uses it", "system allocation failures are injected for sizes of at least 4096 bytes"],
                     "U02": ["the number of cores is the value std::thread::hardware_concurrency reports (0 to 33 explored)", "interleavings of the real threads are those that occur with and without sleeping workers; all interleavings are explored in the model"],
                     "U03": ["the model's alphabet has 2 or 4 letters and its dictionary 4 to 64 entries; the code's are 256 and 2^20, filled by inputs of several megabytes"],
                     "U04": ["files with 28 by 28 images whose headers agree with their lengths"]}[prop]
    return c.finish()
