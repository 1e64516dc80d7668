"""Random networks of layers over declared inputs.  As in gen_graph, only shapes and bounds are tracked here."""
from gen_graph import *
from gen_graph import Bad, need

PLAIN = "plus minus neg adds muls relu abs square emul mm sumall rsum flip repeat expand squeeze".split()
LAYERS = ("Dense Dense Dense Conv2D Conv2D Conv2D Conv2Di Conv1D Conv1D Conv2DTranspose Conv2DTranspose Concatenate Add Subtract Multiply ReLU LeakyReLU "
          "Softmax ELU Reshape Reshape Flatten Flatten MaxPooling2D AveragePooling2D UpSampling2D").split()
ONE = {"ReLU": "relu", "LeakyReLU": "leaky", "Softmax": "identity", "ELU": "identity", "Reshape": "reshape", "Flatten": "flatten",
       "MaxPooling2D": "maxpool", "AveragePooling2D": "avgpool", "UpSampling2D": "upsample"}
PAIR = {"Concatenate": "concat", "Add": "plus", "Subtract": "minus", "Multiply": "emul"}

BYRANK = {2: ["Dense"], 3: ["Conv1D", "Flatten"], 4: "Conv2D Conv2D Conv2D Conv2Di Conv2DTranspose Conv2DTranspose MaxPooling2D AveragePooling2D UpSampling2D Flatten Reshape".split()}

class LProg(GProg):
    limv, limg = 400_000, 6_000_000
    def __init__(self, rng, rank, large=False):
        super().__init__(rng, [(PLAIN, 1)]);
        if large: self.large, self.size = True, 300
        self.hidden, self.rank, self.noback = set(), rank, set()
        self.ns = rng.choice([2, 2, 3])       # the first scenario is the declaration: one sample
    def ids(self): return [i for i in self.sh if i not in self.hidden]
    def sample(self, rank):
        r = self.r
        while True:
            s = tuple(r.choice([2, 3, 4, 5, 6]) for _ in range(rank - 1)) + (r.choice([1, 1, 2, 2, 3]),)
            if self.large: s = tuple(r.randint(3, 12) for _ in range(rank - 1)) + (r.choice([1, 2, 3, 4, 5, 8]),)
            if rank == 1: s = (r.choice([1, 2, 3, 4, 5] if not self.large else [7, 16, 17, 33, 60]),)
            if prod(s) <= (self.size // 3 if self.large else 36): return s
    def input(self, s):
        h = self.hi(); b = [1] + [self.r.choice([1, 2, 2, 3] if not self.large else [1, 2, 3, 5, 9]) for _ in range(self.ns - 1)]
        b = [k if k * prod(s) <= self.size else 1 for k in b]
        i = self.add("ph", [(k,) + s for k in b], 2 * h + (0 if self.large else SIZE))
        self.phs.append(i); self.emit("ph", i, s)
        return i
    def leaf(self, like=None, image=None):
        r = self.r
        if like is None: return self.input(self.sample(self.rank))
        h = self.hi(); tr = int(r.random() < 0.9)
        if r.random() < 0.75:
            i = self.add("var", [like] * self.ns, self.bound(h, like)); self.vars.append(i); self.emit("var", i, like, self.vals(prod(like), h), 0, 0, tr)
        else: i = self.add("con", [like] * self.ns, self.bound(h, like)); self.emit("con", i, like, self.vals(prod(like), h))
        return i
    def layer(self):
        for _ in range(60):
            i = self.one_layer()
            if i: return i
        return None
    def one_layer(self):
        r = self.r; a = [self.pick()]; x = self.sh[a[0]][0]; n = self.n
        k = r.choice(BYRANK.get(len(x), LAYERS) if r.random() < 0.6 else LAYERS)
        q = [r.choice([0, 0, 1, 2]) if r.random() < 0.3 else 0 for _ in range(4)] + [int(r.random() < 0.8)]
        form = r.randrange(8) + (8 if r.random() < 0.12 else 0)
        ws, p = [], []
        try:
            if k == "Dense":
                need(len(x) == 2); p = [r.choice([1, 2, 2, 3, 4] if not self.large else [5, 7, 16, 17])]; ws = [(x[-1], p[0]), (1, p[0])]
                body = [("mm", [a[0], n + 1], []), ("plus", [n + 3, n + 2], [])]
            elif k in ("Conv2D", "Conv2Di", "Conv2DTranspose"):
                need(len(x) == 4)
                kx = r.choice([1, 2, 2, 3, 3]); ky = kx if r.random() < 0.5 else r.choice([1, 2, 3])
                sx = r.choice([1, 1, 1, 2, 3]); sy = sx if r.random() < 0.5 else r.choice([1, 2, 3])
                dx = r.choice([1, 1, 1, 2]); dy = dx if r.random() < 0.5 else r.choice([1, 2])
                if k == "Conv2DTranspose": sx, sy = min(sx, 2), min(sy, 2)
                if self.large: kx, ky, sx, sy, dx, dy = (r.randint(1, m) for m in (6, 6, 4, 4, 3, 3))
                if k == "Conv2DTranspose": sx, sy = min(sx, 2), min(sy, 2)
                p = [r.choice([1, 1, 2, 3] if not self.large else [2, 4, 5, 8]), kx, ky, sx, sy, dx, dy, int(r.random() < 0.4)]
                ws = [(p[0], kx, ky, x[3]), (1, 1, p[0])]
                body = [("convt", [a[0], n + 1], p[1:]) if k == "Conv2DTranspose" else ("conv", [a[0], n + 1], p[3:]), ("plus", [n + 3, n + 2], [])]
            elif k == "Conv1D":
                need(len(x) == 3); p = [r.choice([1, 1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 1, 2]), r.choice([1, 1, 2]), int(r.random() < 0.4)]
                ws = [(p[0], p[1], 1, x[2]), (1, 1, p[0])]
                body = [("expand", a, [2]), ("conv", [n + 3, n + 1], [p[2], 1, p[3], 1, p[4]]), ("plus", [n + 4, n + 2], []), ("squeeze", [n + 5], [2])]
            elif k in ONE:
                if k in ("Softmax", "ELU") and r.random() < 0.5: return None
                if k == "Softmax" and self.mag[a[0]] > 30: return None
                if k == "Reshape" and r.random() < 0.8:     # batches of another size stay possible
                    n1, s = prod(x[1:]), []
                    while n1 > 1 and len(s) < 3:
                        d = r.choice([d for d in range(2, n1 + 1) if n1 % d == 0]); s.append(d); n1 //= d
                        if r.random() < 0.15: s.append(1)
                    if n1 > 1: s.append(n1)
                    r.shuffle(s); p = [1] + (s or [1])
                else: p = self.params(ONE[k], a)
                body = [(ONE[k], a, p)]
                if k == "Flatten": p = []
            else:
                c = [j for j in self.ids() if all(self.sh[j][t] == self.sh[a[0]][t] for t in range(self.ns))]
                if k == "Concatenate":
                    ax = r.choice([-1, -1] + list(range(1, len(x))))
                    d = [j for j in self.ids() if len(self.sh[j][0]) == len(x) and all(self.sh[j][t][e] == self.sh[a[0]][t][e] for t in range(self.ns) for e in range(len(x)) if e != ax % len(x))]
                    a.append(r.choice(d)); p = [ax]
                elif r.random() < 0.8: a.append(r.choice(c))
                else: a.append(self.pick())
                if r.random() < 0.5: a.reverse()
                body = [(PAIR[k], a, p)]
            # dry run
            sh, mag = dict(self.sh), dict(self.mag)
            hw = [r.choice([3, 6]), r.choice([3, 6, 9])]
            for t, w in enumerate(ws): sh[n + 1 + t] = [w] * self.ns; mag[n + 1 + t] = self.bound(hw[t], w)
            at, made = n + len(ws), []
            for op, args, pp in body:
                at += 1
                res = [infer(op, [sh[v][t] for v in args], pp, [mag[v] for v in args]) for t in range(self.ns)]
                if op in ("conv", "convt"): need(len({sh[args[0]][t][1:] for t in range(self.ns)}) == 1)
                sh[at] = [e[0] for e in res]; mag[at] = max(1, max(e[1] for e in res))
                need(mag[at] <= self.limv and all(0 < len(s) <= 5 and prod(s) <= self.size for s in sh[at]))
                made.append((sh[at], mag[at], args, [max(e[2][t] for e in res) for t in range(len(args))]))
            need(all(prod(w) <= self.size for w in ws))
        except (Bad, IndexError, ZeroDivisionError): return None
        for t, w in enumerate(ws):
            v = self.add("var", [w] * self.ns, self.bound(hw[t], w)); self.hidden.add(v)
            if t == 0 or q[4]: self.vars.append(v)
        for s, m, args, gain in made: self.hidden.add(self.add("node", s, m, args, gain))
        i = self.n; self.hidden.discard(i)
        self.emit("layer", i, n + 1 if ws else 0, n + 2 if ws else 0, k, a, p, q, form)
        if k in ("Softmax", "ELU"): self.noback.add(i)
        for t, w in enumerate(ws):
            if t == 0 or (q[4] and r.random() < 0.7) or r.random() < 0.15: self.emit("set", n + 1 + t, self.vals(prod(w), hw[t]))
        return i
    def differentiable(self, root):
        """the gradients of the two functions of Softmax and ELU cancel only up to rounding"""
        seen = {root}
        for j in range(root, 0, -1):
            if j in seen: seen |= set(self.args[j])
        return not (seen & self.noback) and self.gradient_bounded(root)

def program(rng):
    while True:
        g = LProg(rng, rng.choice([1, 1, 2, 3, 3, 3]), rng.random() < 0.06)
        for _ in range(rng.choice([1, 1, 1, 2])): g.leaf()
        g.cur = 0
        for _ in range(rng.randint(2, 6)): g.layer() if rng.random() < 0.8 else g.grow()
        nodes = [i for i in g.ids() if g.kind[i] == "node"]
        if not any(e.startswith("layer") for e in g.ev): continue
        for i in g.ids():
            if rng.random() < 0.5: g.emit("shape", i)
        g.scenario(rng.randrange(g.ns))
        for _ in range(rng.randint(2, 5)):
            c = rng.random()
            if c < 0.3: g.scenario(rng.randrange(g.ns))
            elif c < 0.5 and g.vars:
                v = rng.choice(g.vars); s = g.sh[v][0]; g.emit("set", v, g.vals(prod(s), g.rest(s, g.mag[v])))
            elif c < 0.6:
                i = g.layer()
                if i: nodes.append(i)
            root = rng.choice(nodes[-2:] if rng.random() < 0.7 else nodes)
            if rng.random() < 0.25 and len(g.phs) == 1:
                h = g.phs[0]; g.cur = rng.randrange(g.ns); s = g.sh[h][g.cur]
                g.emit("predict", root, rng.choice([0, 1]), h, s, g.vals(prod(s), g.rest(s, g.mag[h]) if g.large else max(3, min(g.hi(), (g.mag[h] - SIZE) // 2))))
            elif rng.random() < 0.7 and g.differentiable(root): g.emit("step", root)
            else: g.emit("run", root, rng.choice([0, 1]))
            if rng.random() < 0.3: g.emit("shape", rng.choice(g.ids()))
        return g.text()
