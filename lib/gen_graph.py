"""Random programs over expression graphs.  The generator tracks shapes (for every combination of bindings the program will use),
bounds of values and bounds of gradients, so that every program is legal and all integers stay in range; what the nodes
evaluate to and what their gradients are is left to the specification."""
import random

LIMV, LIMG, SIZE = 2_000_000, 100_000_000, 72
LARGE = 600

def prod(s):
    n = 1
    for x in s: n *= x
    return n

def bcast(a, b):
    n = max(len(a), len(b)); a2 = [1] * (n - len(a)) + list(a); b2 = [1] * (n - len(b)) + list(b)
    out = []
    for x, y in zip(a2, b2):
        if x != y and 1 not in (x, y): return None
        out.append(max(x, y) if x and y else 0)
    return tuple(out)

class Bad(Exception): pass
def need(c):
    if not c: raise Bad()

def drop(s, ax):
    a = len(s) - 1 if ax == -1 else ax
    return s[:a] + s[a + 1:]

def pads(p): return [p[0]] * 4 if len(p) == 1 else [p[0], p[0], p[1], p[1]] if len(p) == 2 else list(p)

def samepad(k, d, st):
    tot = k + (k - 1) * (d - 1) - st
    need(tot >= 0 and tot % 2 == 0)
    return ((k & 1) + tot) >> 1

def convshape(x, w, p):
    sr, sc, dr, dc, same = p[:5]
    need(len(x) == 4 and len(w) == 4 and x[3] == w[3])
    pr, pc = (samepad(w[1], dr, sr), samepad(w[2], dc, sc)) if same else (0, 0)
    er, ec = dr * (w[1] - 1) + 1, dc * (w[2] - 1) + 1
    need(x[1] + 2 * pr >= er and x[2] + 2 * pc >= ec)
    return (x[0], (x[1] + 2 * pr - er) // sr + 1, (x[2] + 2 * pc - ec) // sc + 1, w[0])

def infer(op, ss, p, m):
    """(shape, value bound, [gradient gains]) of op applied to shapes ss with value bounds m"""
    x = ss[0]; y = ss[-1]; mx, my = m[0], m[-1]
    n = prod(x)
    if op in ("identity", "count", "neg", "abs", "fabs", "relu"): return x, mx, [1]
    if op == "leaky": return x, mx * p[0], [p[0]]
    if op == "clip": return x, max(abs(p[0]), abs(p[1])), [1]
    if op in ("adds", "sadd", "subs", "ssub", "vadd", "vradd", "vsub", "vrsub"): return x, mx + abs(p[0]), [1]
    if op in ("muls", "smul", "vmul", "vrmul"): return x, mx * abs(p[0]), [abs(p[0])]
    if op == "square": return x, mx * mx, [2 * mx]
    if op in ("sign", "oneslike"): return x, 1, [0]
    if op == "zeroslike": return x, 0, [0]
    if op in ("plus", "minus"):
        s = bcast(x, y); need(s is not None)
        return s, mx + my, [prod(s) // prod(x), prod(s) // prod(y)]
    if op in ("emul", "hmul"):
        need(x == y or (len(x) > len(y) and x[-len(y):] == y) or (len(y) > len(x) and y[-len(x):] == x))
        big = x if prod(x) >= prod(y) else y
        if prod(x) == prod(y): need(x == y)
        return big, mx * my, [my * prod(big) // n, mx * prod(big) // prod(y)]
    if op in ("mm", "mul"):
        need(len(x) == 2 and len(y) == 2 and x[1] == y[0])
        return (x[0], y[1]), mx * my * x[1], [my * y[1], mx * x[0]]
    if op in ("maximum", "minimum"): need(x == y); return x, max(mx, my), [1, 1]
    if op == "equal": need(x == y); return x, 1, [0, 0]
    if op in ("sumall", "rsumall"): return (1,), mx * n, [1]
    if op == "meann": need(n == p[0]); return (1,), mx * n, [1]
    if op in ("rsum", "rmax", "rmin", "argmax", "argmin"):
        need(len(x) >= 2 and p[0] < len(x))
        s = drop(x, p[0])
        k = x[p[0]]
        if op == "rsum": return s, mx * k, [1]
        return (s, mx, [1]) if op[0] == "r" else (s, k, [0])
    if op == "reshape":
        s = tuple(p[1:])
        if p[0] == 1: need(n % prod(s) == 0); return (n // prod(s),) + s, mx, [1]
        need(prod(s) == n); return s, mx, [1]
    if op == "flatten": need(len(x) >= 2); return (x[0], n // x[0]), mx, [1]
    if op == "expand":
        a = len(x) if p[0] == -1 else p[0]; need(a <= len(x))
        return x[:a] + (1,) + x[a:], mx, [1]
    if op == "squeeze":
        if p[0] == -1: return tuple(v for v in x if v != 1) or (1,), mx, [1]
        need(p[0] < len(x) > 1 and x[p[0]] == 1); return drop(x, p[0]), mx, [1]
    if op == "flip": need(p[0] < len(x) <= 4); return x, mx, [1]
    if op == "transpose": need(len(x) == 2); return (x[1], x[0]), mx, [1]
    if op == "repeat":
        need(p[1] < len(x)); a = len(x) - 1 if p[1] == -1 else p[1]
        return x[:a] + (x[a] * p[0],) + x[a + 1:], mx, [p[0]]
    if op == "broadcast":
        s = tuple(p); need(len(s) >= len(x) and bcast(s, x) == s)
        t = tuple(v for v in x); k = 0
        while k < len(t) and t[k] == 1: k += 1
        need(s[len(s) - len(t) + k:] == t[k:])
        return s, mx, [prod(s) // n]
    if op in ("concat", "concatf"):
        a = len(x) - 1 if p[0] == -1 else p[0]
        need(len(x) == len(y) and a < len(x) and all(i == a or x[i] == y[i] for i in range(len(x))))
        return x[:a] + (x[a] + y[a],) + x[a + 1:], max(mx, my), [1, 1]
    if op in ("maxpool", "avgpool", "upsample"):
        need(len(x) == 4); k = p[0]
        if op == "upsample": return (x[0], x[1] * k, x[2] * k, x[3]), mx, [k * k]
        need(x[1] >= k and x[2] >= k)
        return (x[0], x[1] // k, x[2] // k, x[3]), mx * (k * k if op == "avgpool" else 1), [1]
    if op == "zeropad":
        need(len(x) == 4); q = pads(p); return (x[0], x[1] + q[0] + q[1], x[2] + q[2] + q[3], x[3]), mx, [1]
    if op == "crop":
        need(len(x) == 4); q = pads(p); s = (x[0], x[1] - q[0] - q[1], x[2] - q[2] - q[3], x[3]); need(s[1] >= 1 and s[2] >= 1); return s, mx, [1]
    if op == "im2c":
        kr, kc, pr, pc, sr, sc, dr, dc = p
        need(len(x) == 4); er, ec = dr * (kr - 1) + 1, dc * (kc - 1) + 1
        need(x[1] + 2 * pr >= er and x[2] + 2 * pc >= ec)
        return (kr * kc * x[3], x[0] * ((x[1] + 2 * pr - er) // sr + 1) * ((x[2] + 2 * pc - ec) // sc + 1)), mx, [kr * kc]
    if op in ("conv", "convi"):
        if op == "convi": need(tuple(p[5:7]) == x[1:3])
        s = convshape(x, y, p)
        return s, mx * my * prod(y[1:]), [my * prod(y[:3]), mx * prod(s[:3])]
    if op == "convt":
        rk, ck, sr, sc, dr, dc, same = p
        need(len(x) == 4 and len(y) == 4 and y[1:3] == (rk, ck))
        z = (x[0], x[1] * sr + (0 if same else 2 * rk - 2), x[2] * sc + (0 if same else 2 * ck - 2), x[3])
        need(prod(z) <= 2 * LARGE)
        s = convshape(z, y, (sr, sc, dr, dc, same))
        return s, mx * my * prod(y[1:]), [my * prod(y[:3]), mx * prod(s[:3])]
    raise Bad()

ARITH = "neg adds sadd subs ssub muls smul vadd vradd vsub vrsub vmul vrmul plus plus plus minus minus minus emul emul hmul mm mm mul".split()
ELEM = "square abs fabs sign relu leaky clip oneslike zeroslike identity maximum minimum equal sumall rsumall meann rsum rmax rmin argmax argmin".split()
STRUCT = "reshape flatten expand squeeze flip transpose repeat broadcast concat concatf".split()
IMAGE = "conv convi conv convi convt im2c im2c maxpool avgpool upsample zeropad crop flip repeat concat concatf flatten".split()
MIX = {
    "G01": [(ARITH, 5), (ELEM, 3), (STRUCT, 2)],
    "G02": [(ARITH, 5), (ELEM, 3), (STRUCT, 2), (["count"], 0.3)],
    "G03": [(ARITH, 3), (ELEM, 2), (STRUCT, 4), (IMAGE, 3)],
    "G04": [(ARITH, 3), (ELEM, 2), (STRUCT, 4), (IMAGE, 2)],
    "G05": [(ARITH, 4), (ELEM, 2), (STRUCT, 1), (["count"], 3)],
    "G07": [(IMAGE, 8), (["transpose", "broadcast", "reshape"], 1), (["plus", "minus", "adds", "muls", "abs", "relu"], 2)],
}
MIX["R02"] = [(ARITH, 6), (ELEM, 2), (STRUCT, 1), (["count"], 0.5)]
TWO = {"plus", "minus", "emul", "hmul", "mm", "mul", "maximum", "minimum", "equal", "concat", "concatf", "conv", "convi", "convt"}

class GProg:
    limv, limg = LIMV, LIMG
    size, large = SIZE, False
    def ids(self): return list(self.sh)
    def __init__(self, rng, mix, images=False, large=False):
        if large: self.large, self.size = True, rng.choice([150, 300, LARGE]) if images or rng.random() < 0.85 else 2400
        self.r, self.mix, self.images = rng, mix, images
        self.ev, self.n = [], 0
        self.sh, self.mag, self.kind, self.args, self.gain, self.uses_ph = {}, {}, {}, {}, {}, {}
        self.ns = rng.choice([1, 2, 2, 3])       # number of binding scenarios
        self.vars, self.phs, self.ok, self.again = [], [], set(), []
        self.cur = None
    def emit(self, *t):
        out = []
        for x in t:
            if isinstance(x, (list, tuple)): out += [str(len(x))] + [str(int(y)) for y in x]
            else: out.append(str(x))
        self.ev.append(" ".join(out))
    def bound(self, h, s): return 2 * h + (0 if self.large else prod(s))
    def rest(self, s, m):
        """how large values of a tensor of shape s may be if its bound is m"""
        return max(1, (m - (0 if self.large else prod(s))) // 2)
    def vals(self, n, hi):
        r = self.r
        if self.large:   # small values, mostly not zero
            if r.random() < 0.1: return [r.choice([0, 0, 1, -1, hi]) for _ in range(n)]
            return [r.choice([-1, 1]) * r.randint(1, hi) for _ in range(n)]
        if hi < 5 or r.random() < 0.15: v = [r.randint(-hi, hi) for _ in range(n)]
        else:   # mostly distinct, to stay off the kinks
            v = r.sample(range(1, hi + n + 2), n); v = [x if r.random() < 0.5 else -x for x in v]
            if len(v) > 1 and r.random() < 0.3: s = r.choice([-1, 1]); v = [s * abs(x) for x in v]
        return v
    def hi(self): return self.r.choice([3, 6, 9, 12])
    def shape(self):
        r = self.r
        while self.large:
            if self.images and r.random() < 0.85: s = (r.choice([1, 1, 2, 3, 4, 5]), r.randint(2, 12), r.randint(2, 12), r.choice([1, 2, 3, 4, 5, 8]))
            else: s = tuple(1 if r.random() < 0.2 else r.choice([2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 32, 33, 64]) for _ in range(r.choice([1, 2, 2, 2, 3, 3, 4, 5])))
            if self.size // 8 <= prod(s) <= self.size // 2: return s
        if self.images and r.random() < 0.85:
            while True:
                s = (r.choice([1, 1, 2, 3]), r.choice([2, 3, 4, 5, 6]), r.choice([2, 3, 4, 5, 6]), r.choice([1, 1, 2, 3]))
                if prod(s) <= SIZE: return s
        while True:
            k = r.choice([1, 2, 2, 2, 2, 3, 3, 4])
            s = tuple(1 if r.random() < 0.25 else r.choice([2, 2, 3, 3, 4, 5]) for _ in range(k))
            if prod(s) <= 30: return s
    def add(self, kind, shapes, mag, args=(), gain=()):
        self.n += 1; i = self.n
        self.kind[i], self.sh[i], self.mag[i], self.args[i], self.gain[i] = kind, shapes, mag, list(args), gain
        return i
    def leaf(self, like=None, image=None):
        r = self.r
        s = like or self.shape(); h = self.hi()
        c = r.random()
        if self.phs and len(self.phs) >= 3 and c > 0.6: c = 0
        if c < 0.5 or (like and c < 0.75):
            tr = 0 if r.random() < 0.12 else 1
            l1, l2 = (r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])) if r.random() < 0.25 else (0, 0)
            i = self.add("var", [s] * self.ns, self.bound(h, s))
            self.vars.append(i); self.emit("var", i, s, self.vals(prod(s), h), l1, l2, tr)
        elif c < 0.65:
            i = self.add("con", [s] * self.ns, self.bound(h, s)); self.emit("con", i, s, self.vals(prod(s), h))
        else:
            shapes = [s]
            for _ in range(self.ns - 1):
                q = r.random()
                if q < 0.3: shapes.append(self.refactor(s))      # as many elements, another shape
                elif q < 0.75:
                    b = r.choice([1, 2, 3, 4]); t = (b,) + s[1:]
                    shapes.append(t if prod(t) <= self.size else s)
                elif q < 0.85: shapes.append(s)
                else: shapes.append(self.shape())
            i = self.add("ph", shapes, 2 * h + (0 if self.large else SIZE))
            self.phs.append(i); self.emit("ph", i); self.bind(i, 0 if self.cur is None else self.cur)
        return i
    def refactor(self, s):
        r = self.r; s = list(s)
        if len(s) == 4 and r.random() < 0.5: i, j = r.sample(range(4), 2) if r.random() < 0.5 else (1, 2); s[i], s[j] = s[j], s[i]; return tuple(s)
        if r.random() < 0.5: r.shuffle(s); return tuple(s)
        n, out = prod(s), []
        while n > 1 and len(out) < max(1, len(s) - 1):
            d = r.choice([d for d in range(2, n + 1) if n % d == 0]); out.append(d); n //= d
        out.append(n) if n > 1 or len(out) < len(s) else None
        if r.random() < 0.3 and len(out) < 4: out.insert(r.randint(0, len(out)), 1)
        return tuple(out)
    def bind(self, i, sc):
        s = self.sh[i][sc]; self.emit("bind", i, s, self.vals(prod(s), self.hi() if self.large and self.mag[i] >= 24 else max(3, min(self.hi(), (self.mag[i] - (0 if self.large else SIZE)) // 2))))
    def scenario(self, sc):
        for i in self.phs: self.bind(i, sc)
        self.cur = sc
    def tryop(self, op, a, p):
        try:
            res = [infer(op, [self.sh[x][k] for x in a], p, [self.mag[x] for x in a]) for k in range(self.ns)]
            if op in ("conv", "convi", "convt"): need(len({self.sh[a[0]][k][1:] for k in range(self.ns)}) == 1 and len({self.sh[a[1]][k] for k in range(self.ns)}) == 1)
        except (Bad, IndexError): return None
        shapes = [x[0] for x in res]; mag = max(x[1] for x in res); gain = [max(x[2][k] for x in res) for k in range(len(a))]
        if mag > self.limv or any(prod(s) > self.size or not s or len(s) > 5 for s in shapes): return None
        i = self.add("node", shapes, max(mag, 1), a, gain)
        self.emit("node", i, op, a, p)
        return i
    def pick(self):
        r = self.r; ids = self.ids()
        if r.random() < 0.45 and len(ids) > 3: return r.choice(ids[-4:])
        return r.choice(ids)
    def params(self, op, a):
        r = self.r; x = self.sh[a[0]][0]; ax = r.randrange(len(x))
        axm = r.choice([ax, ax, -1]); big = self.large
        if op in ("adds", "sadd", "subs", "ssub", "muls", "smul", "vadd", "vradd", "vsub", "vrsub", "vmul", "vrmul"):
            return [r.choice([-4, -3, -2, -1, 2, 3, 5]) if r.random() < 0.95 else r.choice([0, 1])]
        if op == "leaky": return [r.choice([2, 4, 8])]
        if op == "clip": lo = r.randint(-10, 8); return [lo, lo + r.randint(1, 14)]
        if op == "meann": return [r.choice([1, 2, 4, 8, 16, 32])] if r.random() < 0.1 else [prod(x) if prod(x) & (prod(x) - 1) == 0 else 1]
        if op == "squeeze": return [r.choice([-1] + [j for j, v in enumerate(x) if v == 1] * 2)]
        if op in ("rsum", "rmax", "rmin", "concat", "concatf"): return [axm]
        if op in ("flip", "argmax", "argmin"): return [ax]
        if op == "expand": return [r.choice([-1] + list(range(len(x) + 1)))]
        if op == "repeat": return [r.choice([2, 3, 5, 7] if big else [1, 2, 2, 3]), axm]
        if op == "reshape":
            n = prod(x); s = []
            if r.random() < 0.6:
                n = prod(x[1:]) if len(x) > 1 else 1
                if r.random() < 0.3: n = prod(x) // r.choice([d for d in range(1, prod(x) + 1) if prod(x) % d == 0])
                flag = 1
            else: flag = 0
            while n > 1 and len(s) < 3:
                d = r.choice([d for d in range(2, n + 1) if n % d == 0]); s.append(d); n //= d
                if r.random() < 0.15: s.append(1)
            if n > 1: s.append(n)
            r.shuffle(s)
            if not s: s = [1]
            return [flag] + s
        if op == "broadcast":
            k = 0
            while k < len(x) - 1 and x[k] == 1 and r.random() < 0.7: k += 1
            t = list(x[k:])
            return [r.choice([1, 2, 3]) for _ in range(max(k, r.choice([0, 1, 2])))] + t
        if op in ("maxpool", "upsample"): return [r.choice([2, 3, 4, 5] if big else [2, 2, 3])]
        if op == "avgpool": return [r.choice([2, 2, 4, 8] if big else [2, 2, 4])]
        if op in ("zeropad", "crop"):
            k = r.choice([1, 2, 4])
            if big: return [r.choice([1, 2, 3, 4, 5]) for _ in range(k)]
            return [r.choice([1, 1, 2, 3]) if k > 1 else r.choice([1, 1, 2]) for _ in range(k)]
        if op == "im2c":
            k = r.choice([1, 2, 2, 3]); p = [k, k if r.random() < 0.6 else r.choice([1, 2, 3]), 0, 0, 1, 1, 1, 1]
            for j, v in ((2, [0, 1, 2]), (3, [0, 1, 2]), (4, [1, 2]), (5, [1, 2, 3]), (6, [1, 2]), (7, [1, 2])):
                if r.random() < 0.25: p[j] = r.choice(v)
            return p
        if op in ("conv", "convi"):
            same = int(r.random() < 0.4)
            p = [r.choice([1, 1, 2, 3]) for _ in range(2)] + [r.choice([1, 1, 1, 2]) for _ in range(2)] + [same]
            if big: p = [r.randint(1, 5) for _ in range(2)] + [r.choice([1, 1, 2, 3, 4]) for _ in range(2)] + [same]
            if op == "convi": p += list(x[1:3]) if len(x) == 4 else [1, 1]
            return p
        if op == "convt":
            w = self.sh[a[1]][0]
            if len(w) != 4: raise Bad()
            return [w[1], w[2], r.choice([1, 1, 2]), r.choice([1, 1, 2]), r.choice([1, 1, 1, 2]), r.choice([1, 1, 1, 2]), int(r.random() < 0.3)]
        return []
    def grow(self):
        r = self.r
        for _ in range(60):
            if self.again and r.random() < 0.12:      # the same operator (object) once more
                op, a, p = r.choice(self.again); c = [j for j in self.ids() if self.sh[j] == self.sh[a[0]]]
                i = self.tryop(op, [r.choice(c) if c and r.random() < 0.6 else self.pick()] + a[1:], p)
                if i: return i
            pool, w = zip(*self.mix)
            op = r.choice(r.choices(pool, w)[0])
            a = [self.pick()]
            x = self.sh[a[0]][0]
            if op in TWO:
                q = r.random()
                if op in ("conv", "convi", "convt"):
                    if len(x) != 4: continue
                    if q < 0.9:
                        a.append(self.leaf_kernel(x[3]))
                        if a[1] is None: continue
                    else: a.append(self.pick())
                elif op in ("mm", "mul"):
                    if len(x) != 2: continue
                    c = [j for j in self.ids() if len(self.sh[j][0]) == 2 and self.sh[j][0][0] == x[1]]
                    a.append(r.choice(c) if c and q < 0.6 else self.leaf((x[1], r.choice([1, 5, 7, 16, 17] if self.large else [1, 2, 3, 4]))))
                else:
                    c = [j for j in self.ids() if all(self.sh[j][k] == self.sh[a[0]][k] for k in range(self.ns))]
                    if q < 0.45: a.append(r.choice(c))
                    elif q < 0.75: a.append(self.pick())
                    elif op in ("plus", "minus"): a.append(self.leaf(tuple(1 if r.random() < 0.35 else v for v in x[r.randrange(len(x)):])))
                    elif op in ("emul", "hmul"): a.append(self.leaf(x[r.randrange(len(x)):]))
                    elif op in ("concat", "concatf"):
                        t = list(x); t[r.randrange(len(x))] = r.choice([1, 4, 7, 10] if self.large else [1, 2, 3]); a.append(self.leaf(tuple(t)))
                    else: a.append(self.leaf(x))
                if r.random() < 0.4 and op not in ("conv", "convi", "convt", "mm", "mul"): a.reverse()
            try: p = self.params(op, a)
            except Bad: continue
            i = self.tryop(op, a, p)
            if i:
                if p: self.again.append((op, list(a), p))
                return i
        return None
    def leaf_kernel(self, ch):
        r = self.r
        s = (r.choice([1, 2, 4, 5, 8]), r.randint(1, 7), r.randint(1, 7), ch) if self.large else (r.choice([1, 1, 2, 3]), r.choice([1, 2, 2, 3, 3]), r.choice([1, 2, 2, 3, 3]), ch)
        if prod(s) > self.size: return None
        h = r.choice([3, 6])
        c = r.random()
        if c < 0.85:
            i = self.add("var", [s] * self.ns, self.bound(h, s)); self.vars.append(i)
            self.emit("var", i, s, self.vals(prod(s), h), 0, 0, 1)
        else:
            i = self.add("con", [s] * self.ns, self.bound(h, s)); self.emit("con", i, s, self.vals(prod(s), h))
        return i
    def gradient_bounded(self, root):
        adj = {root: 1}
        for j in range(root, 0, -1):
            if j not in adj or self.kind[j] != "node": continue
            for x, g in zip(self.args[j], self.gain[j]):
                adj[x] = adj.get(x, 0) + adj[j] * g
                if adj[x] > self.limg: return False
        # the number of paths bounds the work of the backward pass of the real code
        paths = {root: 1}
        for j in range(root, 0, -1):
            if j in paths and self.kind[j] == "node":
                for x in self.args[j]: paths[x] = paths.get(x, 0) + paths[j]
        return max(paths.values()) <= 4000
    def text(self): return " ; ".join(self.ev)

class Trainer(GProg):
    """programs of training steps; after each step the bounds of all values are computed anew"""
    def __init__(self, rng, mix, large=False):
        super().__init__(rng, mix, large=large); self.par = {}; self.first = {}; self.l = {}
    def emit(self, *t):
        super().emit(*t)
        w = self.ev[-1].split()
        if w[0] == "node":
            n = int(w[3]); self.par[int(w[1])] = (w[2], [int(x) for x in w[5 + n:]])
        if w[0] == "var": self.l[int(w[1])] = (int(w[-3]), int(w[-2]))
    def gradients(self, root):
        adj = {root: 1}
        for j in range(root, 0, -1):
            if j in adj and self.kind[j] == "node":
                for x, g in zip(self.args[j], self.gain[j]): adj[x] = adj.get(x, 0) + adj[j] * g
        return adj
    def rebound(self):
        """value bounds and gains of every node from the bounds of the leaves; false if too large"""
        for j in sorted(self.sh):
            if self.kind[j] != "node": continue
            op, p = self.par[j]; a = self.args[j]
            res = [infer(op, [self.sh[x][k] for x in a], p, [self.mag[x] for x in a]) for k in range(self.ns)]
            self.mag[j] = max(1, max(x[1] for x in res)); self.gain[j] = [max(x[2][k] for x in res) for k in range(len(a))]
            if self.mag[j] > LIMV: return False
        return True
    def loss(self):
        """a node of shape [1] over some node"""
        for _ in range(20):
            j = self.r.choice([x for x in self.sh if self.kind[x] == "node"][-4:] or [1])
            i = self.tryop(self.r.choice(["sumall", "rsumall"]), [j], []) if self.kind[j] == "node" else None
            if i and any(self.kind[x] == "var" for x in self.gradients(i)): return i
        return None

def train_program(rng):
    while True:
        g = Trainer(rng, MIX["R02"], rng.random() < 0.04)
        for _ in range(rng.choice([2, 2, 3, 4])): g.leaf()
        g.cur = 0
        roots = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _ in range(rng.randint(1, 5)): g.grow()
            l = g.loss() if any(k == "node" for k in g.kind.values()) else None
            if l: roots.append(l)
        if not roots: continue
        base = dict(g.mag)
        mom = rng.choice([0, 0, 1, 2]) if len(roots) == 1 else 0
        lr = {}
        for o, i in enumerate(roots, 1):
            lr[o] = rng.choice([1, 1, -1, 2]); g.emit("opt", o, i, rng.choice(["gd", "sgd"]), rng.choice([1, 1, 2, 4]), lr[o], mom)
        drift = {v: 0 for v in g.vars}
        steps = 0
        for _ in range(rng.randint(2, 7) if rng.random() < 0.95 else rng.randint(12, 30)):
            if g.phs and rng.random() < 0.5: g.scenario(rng.randrange(g.ns)) if rng.random() < 0.6 else g.bind(rng.choice(g.phs), g.cur)
            if g.vars and rng.random() < 0.15:
                v = rng.choice(g.vars); g.emit("set", v, g.vals(prod(g.sh[v][0]), g.rest(g.sh[v][0], base[v])))
            nodes = [i for i in g.sh if g.kind[i] == "node"]
            if rng.random() < 0.4: g.emit("run", rng.choice(list(g.sh)), rng.choice([0, 1]))
            o = rng.randint(1, len(roots)); i = roots[o - 1]
            for attempt in range(2):
                adj = g.gradients(i); ok = g.gradient_bounded(i); new = dict(g.mag); nd = dict(drift)
                if ok:
                    for v in g.vars:
                        l1, l2 = g.l[v]
                        d = abs(lr[o]) * ((adj[v] + l1 + 2 * l2 * g.mag[v]) if v in adj else 0) + mom * drift[v]
                        nd[v] = d; new[v] = g.mag[v] + d
                        if new[v] > LIMV // 50: ok = False
                keep, kg = dict(g.mag), dict(g.gain)
                if ok: g.mag.update({v: new[v] for v in g.vars}); ok = g.rebound()
                if ok: break
                g.mag, g.gain = keep, kg
                if attempt: break
                if all(g.mag[v] == base[v] for v in g.vars) and not any(drift.values()): break
                for v in g.vars: g.emit("set", v, g.vals(prod(g.sh[v][0]), g.rest(g.sh[v][0], base[v])))    # back to small values
                g.mag.update({v: base[v] for v in g.vars}); g.rebound()
                if mom: break
            if not ok: continue
            drift = nd
            between = []
            if rng.random() < 0.3: between = [rng.choice(list(g.sh)), rng.choice([0, 1])]
            g.emit("train", o, rng.choice([1, 1, 1, 2]), between); steps += 1
        if steps: return g.text()

def program(rng, prop):
    if prop == "R02": return train_program(rng)
    """one program exercising the given property"""
    while True:
        g = GProg(rng, MIX[prop], images=prop == "G07" or (prop in ("G03", "G04") and rng.random() < 0.5), large=rng.random() < 0.07)
        for _ in range(rng.choice([1, 2, 2, 3])): g.leaf()
        g.cur = 0
        for _ in range(rng.randint(3, 10 if prop != "G07" else 6)): g.grow()
        nodes = [i for i in g.sh if g.kind[i] == "node"]
        if not nodes: continue
        if prop == "G03":
            for i in g.sh: g.emit("shape", i)
        done = 0
        for t in range(rng.randint(3, 8)):
            c = rng.random()
            if c < 0.25 and g.phs: g.scenario(rng.randrange(g.ns))
            elif c < 0.35 and g.phs: g.bind(rng.choice(g.phs), g.cur)
            elif c < 0.5 and g.vars:
                v = rng.choice(g.vars); s = g.sh[v][0]; g.emit("set", v, g.vals(prod(s), g.rest(s, g.mag[v])))
            elif c < 0.6 and prop != "G07":
                i = g.grow()
                if i: nodes.append(i)
            root = rng.choice(nodes[-3:] if rng.random() < 0.6 else nodes)
            if g.phs and g.ns > 1 and rng.random() < (0.35 if prop == "G04" else 0.1):     # the same expression under every binding
                for sc in rng.sample(range(g.ns), g.ns):
                    g.scenario(sc); g.emit("run", root, rng.choice([0, 1]))
                continue
            if rng.random() < (0.2 if prop in ("G01", "G04") else 0.05): root = rng.choice(list(g.sh))
            if g.kind[root] == "node" and rng.random() < (0.45 if prop in ("G01", "G04", "G05") else 0.9) and g.gradient_bounded(root): g.emit("step", root)
            elif g.kind[root] in ("node", "var", "con", "ph"): g.emit("run", root, rng.choice([0, 1]))
            if prop == "G03" and rng.random() < 0.7: g.emit("shape", rng.choice(list(g.sh)))
            done += 1
        if prop == "G03":
            for i in g.sh: g.emit("shape", i)
        return g.text()
