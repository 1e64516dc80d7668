"""Random programs over tensors.  The generator only tracks shapes, magnitudes and possible sharing, so that every operation is legal
and the integers stay within the range of the specification; what the operations compute is left to the specification."""
import random

LIM = 20000

def prod(s):
    n = 1
    for x in s: n *= x
    return n

class H:
    def __init__(self, s, mag, cls, div=1): self.s, self.mag, self.cls, self.div = list(s), mag, cls, div

class Prog:
    def __init__(self, rng, nh=5, maxsize=36):
        self.r, self.nh, self.maxsize = rng, nh, maxsize
        self.h, self.ev, self.nc = {}, [], 0
    def text(self): return " ; ".join(self.ev)
    def cls(self): self.nc += 1; return self.nc
    def emit(self, *t):
        out = []
        for x in t:
            if isinstance(x, (list, tuple)): out += [str(len(x))] + [str(y) for y in x]
            else: out.append(str(x))
        self.ev.append(" ".join(out))
    def slot(self):
        free = [i for i in range(self.nh) if i not in self.h]
        return self.r.choice(free) if free else self.r.randrange(self.nh)
    def shape(self, rank=None, maxsize=None, ones=0.3):
        r = self.r
        while True:
            k = rank or r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
            s = [1 if r.random() < ones else r.choice([1, 2, 2, 3, 3, 4, 5, 7]) for _ in range(k)]
            if prod(s) <= (maxsize or self.maxsize): return s
    def partner(self, s):
        """a shape that broadcasts with s"""
        r = self.r
        t = list(s)
        if r.random() < 0.6: t = t[r.randrange(len(t)):]
        t = [1 if r.random() < 0.35 else x for x in t]
        if r.random() < 0.3:
            t = [x if x != 1 or r.random() < 0.6 else r.choice([2, 3]) if k >= len(t) - len(s) and s[len(s) - len(t) + k] == 1 else 1 for k, x in enumerate(t)]
        if r.random() < 0.2: t = [r.choice([1, 2])] + t
        return t
    def vals(self, n, lo=-9, hi=9, nz=False, signs="mixed"):
        r = self.r
        if signs == "neg": hi = -1
        if signs == "pos": lo = 1
        v = [r.randint(lo, hi) for _ in range(n)]
        if nz: v = [x if x else r.choice([-2, -1, 1, 2]) for x in v]
        return v
    def new(self, s=None, lo=-9, hi=9, nz=False, signs="mixed", vals=None, o=None):
        s = s or self.shape()
        o = self.slot() if o is None else o
        d = vals if vals is not None else self.vals(prod(s), lo, hi, nz, signs)
        self.emit("new", o, s, d)
        self.h[o] = H(s, max([abs(x) for x in d] + [1]), self.cls())
        return o
    def fresh(self, op, o, args, params, s, mag):
        self.emit(op, o, *args, *params)
        self.h[o] = H(s, mag, self.cls())
        return o
    def any(self, f=lambda h: True):
        c = [i for i, h in self.h.items() if f(h)]
        return self.r.choice(c) if c else None
    def sharers(self, a): return [i for i, h in self.h.items() if h.cls == self.h[a].cls]
    def setmag(self, a, m):
        for i in self.sharers(a): self.h[i].mag = m

    # ---- one step of each kind; each returns False when nothing fits
    def bcast_shape(self, a, b):
        n = max(len(a), len(b)); a = [1] * (n - len(a)) + a; b = [1] * (n - len(b)) + b
        if any(x != y and x != 1 and y != 1 for x, y in zip(a, b)): return None
        return [y if x == 1 else x for x, y in zip(a, b)]
    def s_arith(self):
        op = self.r.choice(["add", "sub"])
        if self.r.random() < 0.75:
            a = self.any()
            if a is None: return False
            o = self.slot()
            if o == a: o = self.nh
            b = a if self.r.random() < 0.1 else self.new(self.partner(self.h[a].s), o=o)
        else: a, b = self.any(), self.any()
        if a is None or b is None: return False
        if self.r.random() < 0.5: a, b = b, a
        s = self.bcast_shape(self.h[a].s, self.h[b].s)
        if s is None or prod(s) > 4 * self.maxsize or self.h[a].mag + self.h[b].mag > LIM: return False
        self.fresh(op, self.slot(), [a, b], [], s, self.h[a].mag + self.h[b].mag); return True
    def s_scalar(self):
        op = self.r.choice(["adds", "sadd", "subs", "ssub", "muls", "smul"])
        a = self.any(lambda h: h.mag * 7 < LIM)
        if a is None: return False
        v = self.r.randint(-7, 7)
        m = self.h[a].mag * max(1, abs(v)) if "mul" in op else self.h[a].mag + abs(v)
        self.fresh(op, self.slot(), [a], [v], self.h[a].s, m); return True
    def s_divs(self):
        a = self.any(lambda h: h.mag * 4 < LIM)
        if a is None: return False
        v = self.r.choice([-4, -2, 1, 2, 4])
        o = self.fresh("muls", self.slot(), [a], [4], self.h[a].s, self.h[a].mag * 4)
        self.fresh("divs", self.slot(), [o], [v], self.h[o].s, self.h[o].mag); return True
    def s_unary(self):
        op = self.r.choice(["neg", "abs"]); a = self.any()
        if a is None: return False
        self.fresh(op, self.slot(), [a], [], self.h[a].s, self.h[a].mag); return True
    def s_emul(self):
        op = self.r.choice(["emul", "hmul"]); a = self.any(lambda h: h.mag * 9 < LIM)
        if a is None: return False
        k = self.r.randrange(len(self.h[a].s)) if self.r.random() < 0.5 else 0
        o = self.slot()
        if o == a: o = self.nh
        b = self.new(self.h[a].s[k:], o=o) if self.r.random() < 0.85 else a
        if self.h[a].mag * self.h[b].mag > LIM: return False
        # the operand of higher rank goes first if the sizes are equal
        x, y = (a, b) if self.r.random() < 0.6 or (prod(self.h[a].s) == prod(self.h[b].s) and self.h[a].s != self.h[b].s) else (b, a)
        self.fresh(op, self.slot(), [x, y], [], self.h[a].s, self.h[a].mag * self.h[b].mag); return True
    def s_ediv(self):
        a = self.any(lambda h: h.mag * 6 < LIM)
        if a is None: return False
        s = self.h[a].s
        d = [self.r.choice([-6, -3, -2, -1, 1, 2, 3, 6]) for _ in range(prod(s))]
        o = self.fresh("muls", self.slot(), [a], [6], s, self.h[a].mag * 6)
        o2 = self.slot()
        if o2 == o: o2 = self.nh
        b = self.new(s, vals=d, o=o2)
        self.fresh("ediv", self.slot(), [o, b], [], s, self.h[o].mag); return True
    def s_inplace_scalar(self):
        op = self.r.choice(["iadds", "isubs", "imuls", "mapadd", "reset", "poke", "poke"])
        a = self.any(lambda h: h.mag * 7 < LIM)
        if a is None: return False
        v = self.r.randint(-7, 7); m = self.h[a].mag
        if op == "poke": self.emit(op, a, self.r.randrange(prod(self.h[a].s)), v * 11); m = max(m, 77)
        else:
            self.emit(op, a, v)
            m = m * max(1, abs(v)) if op == "imuls" else m + abs(v)
        self.setmag(a, m); return True
    def s_idivs(self):
        a = self.any(lambda h: h.mag * 4 < LIM)
        if a is None: return False
        self.emit("imuls", a, 4); self.emit("idivs", a, self.r.choice([-4, -2, 1, 2, 4])); self.setmag(a, self.h[a].mag * 4); return True
    def s_clip(self):
        a = self.any()
        if a is None: return False
        lo = self.r.randint(-6, 3); hi = lo + self.r.randint(0, 6)
        o = self.slot(); cls = self.h[a].cls; s = self.h[a].s
        self.emit("clip", o, a, lo, hi)
        m = max(abs(lo), abs(hi), 1)
        self.setmag(a, m); self.h[o] = H(s, m, cls); return True
    def s_inplace_tensor(self):
        op = self.r.choice(["iadd", "isub", "imul"])
        a = self.any(lambda h: h.mag * 9 < LIM)
        if a is None: return False
        cand = [i for i, h in self.h.items() if h.s == self.h[a].s]
        b = self.r.choice(cand)
        if self.r.random() < 0.5:
            o = self.slot()
            if o == a: o = self.nh
            b = self.new(self.h[a].s, o=o)
        m = self.h[a].mag * self.h[b].mag if op == "imul" else self.h[a].mag + self.h[b].mag
        if m > LIM: return False
        self.emit(op, a, b); self.setmag(a, m); return True
    def s_idiv(self):
        a = self.any(lambda h: h.mag * 6 < LIM)
        if a is None: return False
        self.emit("imuls", a, 6)
        o = self.slot()
        if o == a: o = self.nh
        b = self.new(self.h[a].s, vals=[self.r.choice([-6, -3, -2, -1, 1, 2, 3, 6]) for _ in range(prod(self.h[a].s))], o=o)
        self.emit("idiv", a, b); self.setmag(a, self.h[a].mag * 6); return True
    def s_mm(self, big=False):
        r = self.r
        dim = lambda: r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9]) if not big else r.choice([1, 2, 3, 16, 17, 31, 32, 33, 40])
        m, n, k = dim(), dim(), dim()
        if big == 2:   # beyond the sizes of the blocks of a blocked product
            m, n, k = r.choice([(r.randint(1, 2), r.randint(200, 700), r.randint(40, 80)), (r.randint(65, 140), r.randint(130, 300), r.randint(1, 2)), (r.randint(65, 140), r.randint(2, 4), r.randint(65, 140)),
                                (1, r.randint(600, 800), r.randint(65, 90)), (1, r.randint(3, 6), r.randint(2000, 5000)), (r.randint(2000, 5000), r.randint(3, 6), 1), (r.randint(250, 300), r.randint(250, 300), 1)])
        kind = r.choice(["mm", "mm", "mm", "row", "col", "into", "into", "gemm", "gemm"] + ["gemm"] * 6 * (big == 2))
        kind = "mm" if big and kind in ("into",) and m * k > 2000 else kind
        sl = [i for i in range(self.nh)]; r.shuffle(sl)
        a, b, o = sl[0], sl[1], sl[2]
        lim = 9 if n * 81 < LIM else 5 if n * 25 < LIM else 3
        if kind == "row": self.new([n], o=a, lo=-lim, hi=lim); m = 1
        elif kind == "gemm" and r.random() < 0.5: self.new([n, m], o=a, lo=-lim, hi=lim)
        else: self.new([m, n], o=a, lo=-lim, hi=lim)
        if kind == "col": self.new([n], o=b, lo=-lim, hi=lim); k = 1
        elif kind == "gemm" and r.random() < 0.5: self.new([k, n], o=b, lo=-lim, hi=lim)
        else: self.new([n, k], o=b, lo=-lim, hi=lim)
        mag = n * self.h[a].mag * self.h[b].mag
        if kind == "gemm":
            ta = self.h[a].s == [n, m] and m != n or (m == n and r.random() < 0.5)
            tb = self.h[b].s == [k, n] and k != n or (k == n and r.random() < 0.5)
            self.fresh("gemm", o, [a, b], [int(ta), int(tb), m, n, k], [m, k], mag)
        elif kind == "into":
            if o in self.h: self.emit("drop", o); del self.h[o]
            self.new(r.choice([[m, k], [k, m], self.shape(), [k]]), o=o)
            self.emit("mminto", o, a, b); self.h[o] = H([m, k], mag, self.cls())
            if r.random() < 0.5: self.emit("mminto", o, a, b)
        else: self.fresh("mm", o, [a, b], [], [m, k], mag)
        return True
    def s_mmsame(self):
        a = self.any(lambda h: len(h.s) == 2 and h.s[0] == h.s[1] and h.s[0] * h.mag * h.mag < LIM)
        if a is None:
            n = self.r.choice([1, 2, 3, 4]); a = self.new([n, n])
        s = self.h[a].s
        self.fresh("mm", self.slot(), [a, a], [], s, s[0] * self.h[a].mag ** 2); return True
    def s_flip(self):
        a = self.any(lambda h: len(h.s) <= 4)
        if a is None: return False
        ax = self.r.choice([-1] + list(range(len(self.h[a].s))))
        self.fresh("flip", self.slot(), [a], [ax], self.h[a].s, self.h[a].mag); return True
    def s_repeat(self):
        a = self.any(lambda h: prod(h.s) <= self.maxsize)
        if a is None: return False
        n = self.r.choice([1, 2, 3])
        self.fresh("repeat", self.slot(), [a], [n], [n] + self.h[a].s, self.h[a].mag); return True
    def s_repmat(self):
        a = self.any(lambda h: len(h.s) == 2 and prod(h.s) <= self.maxsize)
        if a is None: a = self.new(self.shape(2))
        x, y = self.r.choice([1, 2, 3]), self.r.choice([1, 2, 3]); s = self.h[a].s
        self.fresh("repmat", self.slot(), [a], [x, y], [s[0] * x, s[1] * y], self.h[a].mag); return True
    def s_concat(self):
        a = self.any(lambda h: prod(h.s) <= 2 * self.maxsize)
        if a is None: return False
        r = self.r; s = self.h[a].s; ax = r.randrange(len(s))
        t = list(s); t[ax] = r.choice([1, 2, 3, 4])
        o = self.slot()
        if o == a: o = self.nh
        if len(s) > 1 and r.random() < 0.25 and ax > 0:      # a tensor of lower rank is repeated
            k = r.randint(1, ax); t2 = t[k:]
            b = self.new(t2, o=o)
        else: b = self.new(t, o=o)
        x, y = (a, b) if r.random() < 0.5 else (b, a)
        out = list(s); out[ax] = s[ax] + t[ax]
        p = -1 if ax == len(s) - 1 and r.random() < 0.5 else ax
        self.fresh("concat", self.slot(), [x, y], [p], out, max(self.h[a].mag, self.h[b].mag)); return True
    def factor(self, n):
        r = self.r
        s = []
        while n > 1 and len(s) < 4:
            d = r.choice([x for x in range(1, n + 1) if n % x == 0]); s.append(d); n //= d
        if n > 1 or not s: s.append(n)
        if r.random() < 0.3 and len(s) < 5: s.insert(r.randrange(len(s) + 1), 1)
        return s
    def s_reshape(self):
        a = self.any()
        if a is None: return False
        s = self.factor(prod(self.h[a].s)); h = self.h[a]
        if self.r.random() < 0.02:   # more dimensions than a shape holds without memory of its own, for a while
            many = [1] * (self.r.choice([31, 32, 33, 34, 40, 65]) - len(s)) + list(s); o = self.slot()
            if o == a: return False
            self.emit("reshape", o, a, many); self.emit("copy" if self.r.random() < 0.5 else "assign", a, o)
            self.emit("reshapein", o, s); self.emit("reshapein", a, list(h.s)); self.h[o] = H(s, h.mag, h.cls)
            return True
        if self.r.random() < 0.4: self.emit("reshapein", a, s); h.s = s
        else:
            o = self.slot(); self.emit("reshape", o, a, s); self.h[o] = H(s, h.mag, h.cls)
        return True
    def s_squeeze(self):
        a = self.any(lambda h: 1 in h.s) or self.any()
        if a is None: return False
        h = self.h[a]; o = self.slot()
        ones = [i for i, x in enumerate(h.s) if x == 1]
        if ones and len(h.s) > 1 and self.r.random() < 0.5:
            ax = self.r.choice(ones); self.emit("squeezeax", o, a, ax); s = h.s[:ax] + h.s[ax + 1:]
        else:
            s = [1] if prod(h.s) == 1 else [x for x in h.s if x > 1]
            if self.r.random() < 0.3: self.emit("squeezeax", o, a, -1)
            else: self.emit("squeeze", o, a)
        self.h[o] = H(s, h.mag, h.cls); return True
    def s_make(self):
        r = self.r; op = r.choice(["ones", "zeros", "newv", "linspace", "oneslike", "zeroslike"]); o = self.slot()
        if op == "linspace":
            n = r.randint(2, 9); ep = r.randint(0, 1); st = r.randint(-9, 9); step = r.randint(-4, 4); segs = n - 1 if ep else n
            self.emit(op, o, st, st + step * segs, n, ep); self.h[o] = H([n], 60, self.cls()); return True
        if op.endswith("like"):
            a = self.any()
            if a is None: return False
            self.fresh(op, o, [a], [], self.h[a].s, 1); return True
        s = self.shape(); self.emit(op, o, s, *([r.randint(-9, 9)] if op == "newv" else [])); self.h[o] = H(s, 9, self.cls()); return True
    def s_astype(self):
        a = self.any()
        if a is None: return False
        self.fresh("astype", self.slot(), [a], [self.r.randint(0, 2)], self.h[a].s, self.h[a].mag); return True
    def s_deep(self):
        a = self.any()
        if a is None: return False
        op = self.r.choice(["deep", "deep", "fcopy"])
        self.fresh(op, self.slot(), [a], [], self.h[a].s, self.h[a].mag); return True
    def s_copy(self):
        a = self.any()
        if a is None: return False
        op = self.r.choice(["copy", "assign"]); o = self.any() if op == "assign" else self.slot(); h = self.h[a]
        self.emit(op, o, a); self.h[o] = H(h.s, h.mag, h.cls); return True
    def s_deepinto(self):
        a = self.any()
        if a is None: return False
        c = [i for i in self.h if i != a and len(self.sharers(i)) == 1 or prod(self.h[i].s) == prod(self.h[a].s)]
        if not c: return False
        o = self.r.choice(c); self.emit("deepinto", o, a); self.h[o].s = list(self.h[a].s); self.setmag(o, self.h[a].mag); return True
    def s_resize(self):
        a = self.any(lambda h: True)
        if a is None or len(self.sharers(a)) > 1: return False
        s = self.shape(); self.emit("resize", a, s); self.h[a].s = s; return True
    def s_reduceax(self):
        op = self.r.choice(["sumax", "maxax", "minax"]); a = self.any(lambda h: len(h.s) > 1 and h.mag * 40 < LIM * 5)
        if a is None: return False
        s = list(self.h[a].s); ax = self.r.choice([-1] + list(range(len(s)))); kd = self.r.randint(0, 1); k = ax % len(s)
        n = s[k]
        if kd: s[k] = 1
        else: del s[k]
        self.fresh(op, self.slot(), [a], [ax, kd], s, self.h[a].mag * (n if op == "sumax" else 1)); return True
    def s_query(self):
        a = self.any(lambda h: h.mag <= 900)
        if a is None: return False
        op = self.r.choice(["sum", "max", "min", "amax", "amin", "mean", "rmean"])
        self.emit(op, *([self.slot(), a] if True else [])); return True
    def s_queryax(self):
        op = self.r.choice(["meanax", "varax", "stdax"])
        a = self.any(lambda h: len(h.s) > 1 and h.mag <= 20 and max(h.s) <= 8)
        if a is None: a = self.new(self.shape(self.r.choice([2, 3, 4])))
        self.emit(op, self.slot(), a, self.r.choice([-1] + list(range(len(self.h[a].s)))), self.r.randint(0, 1)); return True
    def s_vstd(self):
        a = self.any(lambda h: h.mag <= 20 and prod(h.s) <= 12)
        if a is None: a = self.new(self.r.choice([[1], [3], [2, 3], [12], [2, 1, 4]]))
        self.emit(self.r.choice(["var", "std"]), self.slot(), a); return True
    def s_walk(self):
        a = self.any()
        if a is None: return False
        self.emit("walk", self.slot(), a); return True
    def s_bcast(self):
        r = self.r; a = self.any(lambda h: len(h.s) <= 4)
        if a is None: return False
        if r.random() < 0.5: a = self.new([1 if r.random() < 0.5 else n for n in self.shape()])
        s = [r.randint(1, 3) if n == 1 else n for n in self.h[a].s]
        while len(s) < 5 and r.random() < 0.3: s = [r.randint(1, 3)] + s
        if prod(s) == prod(self.h[a].s) or prod(s) > 150: return False
        self.fresh("bcast", self.slot(), [a], [s], s, self.h[a].mag); return True
    def s_bshape(self):
        r = self.r; a = self.any(); s = self.h[a].s
        t = [n if r.random() < 0.6 else 1 if n > 1 or r.random() < 0.5 else r.randint(1, 3) for n in s][r.randint(0, len(s)) if r.random() < 0.5 else 0:]
        while len(s) <= len(t) < 5 and r.random() < 0.2: t = [r.randint(1, 3)] + t
        if not t or prod(t) > 150: return False
        b = self.new(t)
        if b == a: return False
        x = [a, b]; r.shuffle(x); self.emit("bshape", self.slot(), *x); return True
    def s_rsum(self):
        a = self.any(lambda h: h.mag * prod(h.s) < LIM * 5)
        if a is None: return False
        self.fresh("rsum", self.slot(), [a], [], [1], self.h[a].mag * prod(self.h[a].s)); return True
    def s_softmax(self):
        a = self.any(lambda h: h.mag < 300)
        if a is None: return False
        self.emit("softmax", self.slot(), a); return True
    def s_negative(self):       # tensors of one sign only
        self.new(signs=self.r.choice(["neg", "pos"])); return True
    def s_drop(self):
        if len(self.h) < 4: return False
        a = self.any(); self.emit("drop", a); del self.h[a]; return True

EW = ["arith"] * 4 + ["scalar"] * 2 + ["divs", "unary", "emul", "emul", "ediv", "inplace_scalar", "idivs", "clip", "inplace_tensor", "idiv"]
ST = ["flip"] * 4 + ["repeat", "repmat", "concat", "concat", "concat", "reshape", "squeeze", "make", "astype", "bcast", "bcast", "bshape", "walk"]
RED = ["reduceax"] * 4 + ["query", "query", "queryax", "queryax", "rsum", "softmax", "softmax", "negative", "vstd"]
AL = ["copy", "copy", "copy", "deep", "deepinto", "resize", "reshape", "squeeze"]
WR = ["inplace_scalar"] * 3 + ["inplace_tensor", "clip"]
MIX = {
    "T01": ["arith"] * 3 + ["scalar", "scalar", "divs", "unary", "emul", "ediv", "mmsame", "flip", "repeat", "repmat", "concat", "astype", "reduceax", "query",
            "queryax", "rsum", "softmax", "copy", "copy", "inplace_scalar", "inplace_tensor", "reshape", "deep", "make", "bcast", "walk", "vstd"],
    "T02": EW * 3 + ["copy", "make", "reshape"],
    "T03": ["mm"] * 8 + ["mmsame", "copy", "scalar"],
    "T04": ST * 2 + ["copy", "arith"],
    "T05": RED * 2 + ["copy", "unary", "reshape"],
    "T06": AL * 2 + WR * 2 + ["arith", "scalar", "unary", "emul", "flip", "repeat", "concat", "reduceax", "astype", "mmsame", "divs", "rsum", "softmax", "drop", "make", "repmat", "bcast", "walk"],
}

def program(rng, mix, length, maxsize=36, nh=5):
    p = Prog(rng, nh, maxsize)
    p.new(); p.new(signs=rng.choice(["mixed", "mixed", "neg"]))
    fails = 0
    while len(p.ev) < length and fails < 60:
        if not getattr(p, "s_" + rng.choice(mix))(): fails += 1
        for i in list(p.h):
            if i >= nh and len(p.h) > nh + 1: p.emit("drop", i); del p.h[i]
    return p.text()

def big(rng, prop):
    """sizes beyond the thresholds of parallel execution"""
    p = Prog(rng, 4, 400)
    if prop == "T03":
        p.s_mm(big=2 if rng.random() < 0.5 else 1)
        return p.text()
    s = rng.choice([[rng.randint(60, 300)], [rng.randint(8, 20), rng.randint(8, 20)], [2, rng.randint(20, 40), 3], [4, 5, rng.randint(3, 10)]])
    p.new(s)
    for _ in range(5): getattr(p, "s_" + rng.choice([m for m in MIX[prop] if m not in ("queryax", "stdax")]))()
    return p.text()
