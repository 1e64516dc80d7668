"""T07, S01, S02, U05: text files, saved sessions, bindings, identities."""
import random, struct
from common import *

OWN = {"T07": {"text-shape", "text-value", "text-write"}, "S01": {"saved", "restored", "usable"}, "S02": {"bound", "lifetime", "equality", "order", "shared"}, "U05": {"shared-id", "changed-id"}}

def words(v, kind):
    if kind == 0:
        u = struct.unpack("<Q", struct.pack("<d", v))[0]
        return [(u >> 48) & 0xffff, (u >> 32) & 0xffff, (u >> 16) & 0xffff, u & 0xffff]
    u = struct.unpack("<I", struct.pack("<f", v))[0]
    return [u >> 16, u & 0xffff]

def bits(rng, kind, subnormal=True):
    """a finite number, as words"""
    x = rng.random()
    if x < 0.2: return words(float(rng.randint(-100, 100)), kind)
    if x < 0.35: return words(rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 0.3, 2.5, 1e-5, 123456.789]), kind)
    if x < 0.5: return words(rng.uniform(-1, 1), kind)
    p, q = (52, 11) if kind == 0 else (23, 8)
    ex = rng.choice([0 if subnormal else 1, 1, 2, (1 << (q - 1)) - 1, (1 << (q - 1)) + p, (1 << q) - 2, rng.randint(1, (1 << q) - 2), rng.randint(1, (1 << q) - 2)])
    m = rng.choice([0, 1, (1 << p) - 1, rng.getrandbits(p), rng.getrandbits(p), rng.getrandbits(p)])
    if not subnormal and ex == 0: m = 0
    u = (rng.getrandbits(1) << (p + q)) | (ex << p) | m
    n = 4 if kind == 0 else 2
    return [(u >> (16 * (n - 1 - k))) & 0xffff for k in range(n)]

def shape(rng, zero=False):
    if rng.random() < 0.01: return rng.choice([[rng.randint(64, 300)], [1, 2, 1, 3, 1, 2], [2, 1, 2, 2, 3], [rng.randint(10, 40), rng.randint(2, 5)], [1, 1, 1, 1, 1, 1, 1], [2, rng.randint(30, 60), 2], [1000]])
    s = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.08: s = [rng.choice([1, 7, 30])]
    if zero and rng.random() < 0.05: s[rng.randrange(len(s))] = 0
    return s

def vol(s):
    n = 1
    for x in s: n *= x
    return n

def tsr(rng, kind, s=None, zero=False):
    s = s if s is not None else shape(rng, zero)
    return f"{len(s)} {' '.join(map(str, s))} " + " ".join(str(w) for _ in range(vol(s)) for w in bits(rng, kind)), s

def text_program(rng):
    kind = rng.randint(0, 1)
    ev, have, q, files = [f"world {kind}"], [], {}, []
    top = 5 if rng.random() < 0.97 else 15
    for _ in range(rng.randint(3, 14) if top == 5 else rng.randint(20, 60)):
        x = rng.random()
        if x < 0.35 or not have:
            i = rng.randint(1, top); ev.append(f"ts {i} {tsr(rng, kind, zero=True)[0]}"); have.append(i)
        elif x < 0.6: k = rng.randint(1, 2); ev.append(f"wr {k} {rng.choice(have)}"); q[k] = q.get(k, 0) + 1
        elif x < 0.8 and any(q.values()):
            k = rng.choice([k for k in q if q[k]]); i = rng.randint(1, 6); ev.append(f"rd {k} {i}"); q[k] -= 1; have.append(i)
        elif x < 0.9: f = rng.randint(1, 2); ev.append(f"sv {f} {rng.choice(have)}"); files.append(f)
        elif files: i = rng.randint(1, 6); ev.append(f"ld {rng.choice(files)} {i}"); have.append(i)
    for k in q:
        while q[k]: ev.append(f"rd {k} {rng.randint(1, 6)}"); q[k] -= 1
    return " ; ".join(ev)

FLOAT = {0: False, 1: True}     # a model's weights are those of the session of single precision tensors
def save_program(rng):
    kind = rng.randint(0, 1)
    ev, vs, ses, files = [f"world {kind}"], {}, {}, {}
    many = rng.random() < 0.03
    for i in range(1, (rng.randint(12, 40) if many else rng.randint(1, 6)) + 1):
        t, s = tsr(rng, kind); vs[i] = s; ev.append(f"var {i} {int(rng.random() < 0.8)} {t}")
    for _ in range(rng.randint(3, 25 if rng.random() < 0.05 else 12)):
        x = rng.random()
        if x < 0.35: i = rng.choice(list(vs)); ev.append(f"put {i} {tsr(rng, kind, vs[i])[0]}")
        elif x < 0.45 and len(ses) < 3:
            n = rng.randint(1, 3)
            if n in ses: continue
            ids = rng.sample(list(vs), rng.randint(1, len(vs))); ses[n] = set(ids); ev.append(f"open {n} {len(ids)} {' '.join(map(str, ids))}")
        elif x < 0.5 and ses: n = rng.choice(list(ses)); del ses[n]; ev.append(f"close {n}")
        elif x < 0.7:
            n = rng.choice([0, 0] + list(ses)); f = rng.randint(1, 2); files[f] = set(vs) if n == 0 else set(ses[n]); ev.append(f"save {n} {f} {rng.randint(0, 1 + (n == 0 and FLOAT[kind]))}")
        elif x < 0.9 and files:
            f = rng.choice(list(files)); n = rng.choice([0] + [k for k in ses if files[f] <= ses[k]]); ev.append(f"restore {n} {f} {rng.randint(0, 1 + (n == 0 and FLOAT[kind]))}")
        elif x < 0.97: ev.append(f"use {rng.choice(list(vs))}")
        else: i = max(vs) + 1; t, s = tsr(rng, kind); vs[i] = s; ev.append(f"var {i} {int(rng.random() < 0.8)} {t}")
    if files:
        f = rng.choice(list(files)); ev.append(f"restore 0 {f} 0")
        if rng.random() < 0.5: ev.append(f"restore 0 {f} 1")
        ev.append(f"use {rng.choice(list(vs))}")
    return " ; ".join(ev)

def bind_program(rng):
    kind = rng.randint(0, 1)
    ev, ph, bnd, own, ses, tok, vr = [f"world {kind}"], {}, {}, {}, set(), 0, {}
    top = 6 if rng.random() < 0.97 else 16
    for _ in range(rng.randint(4, 25) if top == 6 else rng.randint(30, 80)):
        x = rng.random()
        if x < 0.15 or not ph:
            i = rng.randint(1, top)
            if i in ph: continue
            tok += 1; ph[i] = tok; h = rng.random() < 0.4
            s = shape(rng); ev.append(f"ph {i} {int(h)}" + (f" {len(s)} {' '.join(map(str, s))}" if h else ""))
        elif x < 0.25:
            i, o = rng.randint(1, top + 2), rng.choice(list(ph))
            if i in ph:
                if rng.random() < 0.7: ev.append(f"phassign {i} {o}")
                else: continue
            else: ev.append(f"phcopy {i} {o}")
            ph[i] = ph[o]
        elif x < 0.5:
            i = rng.choice(list(ph)); t = ph[i]; n = rng.choice([0, 0, 0] + list(ses))
            s = bnd[t] if t in bnd and rng.random() < 0.6 else shape(rng)
            if rng.random() < 0.4: s = rng.choice([list(reversed(s)), [vol(s)], [1] + list(s)])   # as many elements, another shape
            re = t in own and rng.random() < 0.3
            if t in own and own[t] != n and not re:
                n = own[t]
            if not re: own[t] = n
            bnd[t] = s
            ev.append(f"{'rebind' if re else 'bind'} {i} {n} {len(s)} {' '.join(map(str, s))} {vol(s)} {' '.join(str(rng.randint(-50, 50)) for _ in range(vol(s)))}")
        elif x < 0.72:
            ok = [i for i in ph if ph[i] in bnd]
            if not ok: continue
            i = rng.choice(ok); same = [o for o in ok if bnd[ph[o]] == bnd[ph[i]]]
            ev.append(f"run {i}" if rng.random() < 0.7 else f"sum {i} {rng.choice(same)}")
        elif x < 0.8: ev.append("cmp")
        elif x < 0.85:
            i, y = rng.randint(1, top), rng.random()
            if not vr or (y < 0.4 and i not in vr): 
                if i in vr: continue
                t, s = tsr(rng, kind); vr[i] = s; ev.append(f"var {i} {rng.randint(0, 1)} {t}")
            elif y < 0.75: o = rng.choice(list(vr)); vr[i] = vr[o]; ev.append(f"varcopy {i} {o}")
            elif y < 0.95: i = rng.choice(list(vr)); ev.append(f"put {i} {tsr(rng, kind, vr[i])[0]}")
            else: ev.append(f"use {rng.choice(list(vr))}")
        elif x < 0.89: ev.append(f"probe {rng.choice(list(ph))}")
        elif x < 0.93:
            n = rng.randint(1, 2)
            if n not in ses: ses.add(n); ev.append(f"open {n} 0")
        elif ses:
            n = rng.choice(list(ses)); ses.discard(n); ev.append(f"close {n}")
            for t in [t for t in own if own[t] == n]: del own[t]; bnd.pop(t, None)
    ev += [f"probe {i}" for i in rng.sample(list(ph), min(2, len(ph)))] + ["cmp"]
    return " ; ".join(ev)

GROUP = {0: 0, 1: 0, 2: 0, 13: 0, 3: 1, 4: 2, 5: 2, 6: 3, 7: 4, 8: 8, 9: 9, 10: 10, 11: 11, 12: 12}
def id_program(rng):
    ev, kinds, n = [], {}, 0
    for _ in range(rng.randint(5, 40) if rng.random() < 0.98 else rng.randint(100, 400)):
        x = rng.random()
        if x < 0.55 or not kinds:
            n += 1; k = rng.randint(0, 13); tu = int(rng.random() < 0.4); kinds[n] = (k, tu); ev.append(f"obj {k} {n} {tu}")
        elif x < 0.75: n += 1; o = rng.choice(list(kinds)); kinds[n] = kinds[o]; ev.append(f"dup {n} {o}")
        elif x < 0.85:
            i = rng.choice(list(kinds)); o = rng.choice([o for o in kinds if GROUP[kinds[o][0]] == GROUP[kinds[i][0]] and kinds[o][1] == kinds[i][1]]); 
            if GROUP[kinds[i][0]] < 5 or True: ev.append(f"assign {i} {o}")
        elif x < 0.9: i = rng.choice(list(kinds)); del kinds[i]; ev.append(f"drop {i}")
        else: ev.append("ids")
        if rng.random() < 0.004: ev.append(f"burn {rng.randint(0, 13)} {rng.choice([200, 256, 1000])} {rng.randint(0, 1)}")
    ev.append("ids")
    return " ; ".join(ev)
def wrap_program(rng, k, span):
    """as many objects come and go as a narrow counter can tell apart"""
    ev = [f"obj {k} {i} 0" for i in range(1, 9)]
    ev += [f"burn {k} {span - rng.randint(2, 20)} {rng.randint(0, 1)}", "ids"] + [f"obj {k} {i} {rng.randint(0, 1)}" for i in range(9, 60)] + ["ids"]
    return " ; ".join(ev)

def run(prop):
    c = Check(prop)
    rng = random.Random(f"{SEED}-{prop}")
    exe = build_all([("h_store", ["h_store.cc", "ids2.cc"], [])])["h_store"]
    def cfg(m): return open(f"{SPEC}/{m}.cfg").read()
    def negative(m, a, b):
        t = tlc(m, consts=cfg(m).replace(a, b))
        if "is violated" not in t.out: raise Infra(f"{m} does not distinguish {b}: " + t.out[-500:])
        c.cov.setdefault("negative_models", []).append(f"{m}: {b} is rejected")
    gen = {"T07": text_program, "S01": save_program, "S02": bind_program, "U05": id_program}[prop]
    if prop in ("T07", "S01"):
        c.model("Decimal", model_check("Decimal", consts=cfg("Decimal") if not THOROUGH else cfg("Decimal").replace("P = 5", "P = 7").replace("Digits = 3", "Digits = 4")))
        negative("Decimal", "Digits = 3", "Digits = 2")
    if prop == "S01":
        c.model("SaveMC", model_check("SaveMC", consts=cfg("SaveMC").replace("Depth = 4", "Depth = 5" if THOROUGH else "Depth = 4"))); negative("SaveMC", "ById = TRUE", "ById = FALSE")
    if prop == "S02":
        c.model("BindMC", model_check("BindMC", consts=cfg("BindMC").replace("Depth = 7", "Depth = 8" if THOROUGH else "Depth = 7")))
        negative("BindMC", "CopyShares = TRUE", "CopyShares = FALSE"); negative("BindMC", "SessionResets = TRUE", "SessionResets = FALSE")
    n = {"T07": 2500, "S01": 1500, "S02": 2500, "U05": 1200}[prop] * (5 if THOROUGH else 1)
    progs = {k + 1: gen(rng) for k in range(n)}
    if prop == "U05":
        for span in (256, 256, 65536, 65536): progs[len(progs) + 1] = wrap_program(rng, rng.choice([7, 7, 3, 4]) if span == 256 else 7, span)
    val_kw = {"cfg": "Replay.cfg"}
    recs, _ = conform(c, "h_store", exe, progs, "StoreTrace", lambda r: bool(OWN[prop] & set(r["why"])), val_kw=val_kw,
                      keyfn=lambda r, p: f"h_store:{r.get('op')}:{'+'.join(sorted(r['why'])) if 'why' in r else 'crash'}")
    def corrupt(r):
        for e in reversed(r["ev"]):
            if prop == "T07" and e["op"] in ("rd", "ld") and e["d"]: e["d"][-1] ^= 1; return r
            if prop == "S01" and e["op"] == "restore": e["v"][0]["d"][-1] ^= 1; return r
            if prop == "S02" and e["op"] == "cmp" and len(e["h"]) > 1: e["lt"][1] = 1 - e["lt"][1]; return r
            if prop == "U05" and e["op"] == "ids" and len(e["o"]) > 1: e["o"][-1]["id"] = e["o"][0]["id"] if False else -5; return r
    canary(c, "h_store", list(recs.values()), "StoreTrace", corrupt, val_kw=val_kw)
    ops = {}
    for r in recs.values():
        for e in r["ev"]: ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.cov["events"] = ops
    c.assumptions = {"T07": ["streams are given max_digits10 digits, as the property demands", "finite values"], "S01": ["a file is restored by a session that knows all its variables", "variables keep their shape between save and restore"],
                     "S02": ["a place holder is bound by one session at a time"], "U05": ["objects are created by one thread"]}[prop]
    return c.finish()
