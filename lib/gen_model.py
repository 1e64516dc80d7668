"""Programs about models: expressions with a hole, applied to expressions, frozen, trained, used to predict."""
from gen_graph import *

# the templates of Models.tla: (operator, arguments, parameters); arguments: 0 the hole, j the j-th node, -j the j-th variable
TEMPLATES = {
    1: [("plus", [0, -1], [])], 2: [("mm", [0, -1], []), ("plus", [1, -2], [])],
    3: [("mm", [0, -1], []), ("plus", [1, -2], []), ("relu", [2], [])],
    4: [("mm", [0, -1], []), ("plus", [1, -2], []), ("relu", [2], []), ("mm", [3, -3], [])],
    5: [("square", [0], []), ("minus", [1, 0], [])], 6: [("emul", [0, -1], []), ("abs", [1], []), ("minus", [2, 1], [])],
    7: [("emul", [0, -1], []), ("adds", [1], [2])], 8: [("square", [0], []), ("rsum", [1], [0])],
    9: [("flatten", [0], []), ("muls", [1], [3])], 10: [("maximum", [0, -1], []), ("minus", [-1, 1], [])],
    11: [("concat", [0, -1], [0])], 12: [("ssub", [0], [2])], 13: [("neg", [0], []), ("vrmul", [1], [3])],
    14: [("mm", [0, -3], []), ("relu", [1], []), ("mm", [2, -1], []), ("plus", [3, -2], [])],
    15: [("emul", [0, -1], []), ("plus", [1, -1], [])], 16: [("neg", [0], []), ("plus", [1, -1], []), ("square", [2], []), ("minus", [3, 0], [])],
    17: [("emul", [0, 0], []), ("sumall", [1], [])], 18: [("transpose", [0], []), ("identity", [1], [])]}

class MProg(Trainer):
    def __init__(self, rng):
        super().__init__(rng, MIX["R02"]); self.hidden, self.models, self.inputs = set(), {}, set()
    def ids(self): return [i for i in self.sh if i not in self.hidden]
    def variables(self, k, x):
        """variables (or constants) for template k over a hole of shape x"""
        r = self.r; sub = lambda s: tuple(1 if r.random() < 0.3 else v for v in s[r.randrange(len(s)):])
        if k in (2, 3, 4, 14):
            need(len(x) == 2); n, m = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
            shapes = {2: [(x[1], n), r.choice([(n,), (1, n)])], 4: [(x[1], n), (n,), (n, m)], 14: [(n, m), (m,), (x[1], n)]}[2 if k == 3 else k]
        elif k in (1, 16): shapes = [sub(x)]
        elif k == 15: shapes = [x]
        elif k in (6, 7): shapes = [x[r.randrange(len(x)):]]
        elif k == 10: shapes = [x]
        elif k == 11: shapes = [(r.choice([1, 2, 3]),) + x[1:]]
        else: shapes = []
        if k == 18: need(len(x) == 2)
        if k == 8: need(len(x) >= 2)
        if k == 9: need(len(x) >= 2)
        out = []
        for s in shapes:
            c = [i for i in self.vars if self.sh[i][0] == s and i not in out]
            if k == 7: i = self.add("con", [s] * self.ns, 12 + prod(s)); self.emit("con", i, s, self.vals(prod(s), 6))
            elif c and r.random() < 0.3: i = r.choice(c)
            else:
                i = self.add("var", [s] * self.ns, 12 + prod(s)); self.vars.append(i)
                l1, l2 = (r.choice([0, 1]), r.choice([0, 1])) if r.random() < 0.2 else (0, 0)
                self.emit("var", i, s, self.vals(prod(s), 6), l1, l2, 0 if r.random() < 0.1 else 1)
            out.append(i)
        return out
    def instantiate(self, k, vs, hole, first):
        """register the nodes of an instance, numbered from `first`; returns the root, or raises Bad without a trace"""
        new, i = [], first
        for op, a, p in TEMPLATES[k]:
            args = [hole if x == 0 else first + x - 1 if x > 0 else vs[-x - 1] for x in a]
            sh = lambda x, q: dict(new_sh).get(x, self.sh.get(x))[q]
            new_sh = [(n[0], n[1]) for n in new]; mg = {n[0]: n[2] for n in new}
            res = [infer(op, [sh(x, q) for x in args], p, [mg.get(x, self.mag.get(x)) for x in args]) for q in range(self.ns)]
            shapes = [t[0] for t in res]; mag = max(1, max(t[1] for t in res))
            need(mag <= LIMV and all(prod(s) <= SIZE and s and len(s) <= 5 for s in shapes))
            new.append((i, shapes, mag, args, [max(t[2][q] for t in res) for q in range(len(args))], op, p)); i += 1
        return new
    def commit(self, new):
        for i, shapes, mag, args, gain, op, p in new:
            j = self.add("node", shapes, mag, args, gain); assert j == i
            self.par[i] = (op, p); self.hidden.add(i)
        self.hidden.discard(self.n)
        return self.n
    def model(self):
        r = self.r
        for _ in range(20):
            k = r.choice(list(TEMPLATES)); x = r.choice([j for j in self.ids()])
            base = self.sh[x]; n0, v0, e0 = self.n, len(self.vars), len(self.ev)
            try:
                vs = self.variables(k, base[0])
                hole = self.n + 1; m = len(self.models) + 1
                self.n += 1; self.sh[hole], self.mag[hole], self.kind[hole], self.args[hole], self.gain[hole] = list(base), 12 + SIZE, "ph", [], ()
                new = self.instantiate(k, vs, hole, hole + 1)
            except Bad:      # forget the attempt
                for j in range(n0 + 1, self.n + 1):
                    for d in (self.sh, self.mag, self.kind, self.args, self.gain, self.l): d.pop(j, None)
                self.n = n0; del self.vars[v0:]; del self.ev[e0:]
                continue
            self.commit(new); self.models[m] = (k, vs, hole, self.n); self.inputs.add(hole)
            self.emit("model", m, k, vs, hole, self.n); self.phs.append(hole); self.bind(hole, self.cur or 0)
            return m
        return None
    def apply(self):
        r = self.r
        for _ in range(15):
            m = r.choice(list(self.models)); k, vs, hole, root = self.models[m]
            x = self.pick() if r.random() < 0.7 else self.leaf(self.sh[hole][self.cur or 0])
            if x == hole or self.kind[x] == "con" and r.random() < 0.5: continue
            try: new = self.instantiate(k, vs, x, self.n + 1)
            except (Bad, IndexError): continue
            i = self.commit(new); self.emit("apply", m, x, i)
            return i
        return None
    def predict(self):
        m = self.r.choice(list(self.models)); k, vs, hole, root = self.models[m]
        s = self.sh[hole][self.cur]
        self.emit("predict", m, hole, root, s, self.vals(prod(s), 6), self.r.choice([0, 1]))
    def freeze(self):
        r = self.r; v = int(r.random() < 0.45)
        if self.models and r.random() < 0.75: self.emit("freeze", r.choice(list(self.models)), v)
        elif self.vars: self.emit("vfreeze", r.choice(self.vars), v)
    def loss(self):
        for _ in range(20):
            c = [x for x in self.ids() if self.kind[x] == "node"]
            if not c: return None
            j = self.r.choice(c[-5:])
            i = self.tryop(self.r.choice(["sumall", "rsumall"]), [j], [])
            if i and any(self.kind[x] == "var" for x in self.gradients(i)): return i
        return None

def program(rng):
    while True:
        g = MProg(rng)
        for _ in range(rng.choice([1, 2, 2])): g.leaf()
        g.cur = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            g.model()
            for _ in range(rng.choice([0, 0, 1])): g.grow()
        if not g.models: continue
        for _ in range(rng.choice([1, 2, 3, 4])):
            g.apply()
            if rng.random() < 0.4: g.grow()
        train = rng.random() < 0.6
        roots = [l for l in (g.loss() for _ in range(rng.choice([1, 1, 2]))) if l] if train else []
        base = dict(g.mag); mom = rng.choice([0, 0, 1, 2]) if len(roots) == 1 else 0; lr = {}
        for o, i in enumerate(roots, 1):
            lr[o] = rng.choice([1, 1, -1, 2]); g.emit("opt", o, i, rng.choice(["gd", "sgd"]), rng.choice([1, 1, 2, 4]), lr[o], mom)
        drift = {v: 0 for v in g.vars}; done = 0
        def fresh():
            for v in g.vars: g.emit("set", v, g.vals(prod(g.sh[v][0]), max(1, (base[v] - prod(g.sh[v][0])) // 2)))
            g.mag.update({v: base[v] for v in g.vars}); return g.rebound()
        for _ in range(rng.randint(4, 10)):
            c = rng.random()
            if c < 0.15 and g.ns > 1: g.scenario(rng.randrange(g.ns))
            elif c < 0.25: g.bind(rng.choice(g.phs), g.cur)
            elif c < 0.4: g.freeze()
            elif c < 0.55: g.predict(); done += 1
            elif c < 0.6: g.emit("shape", rng.choice(g.ids()))
            elif c < 0.8 or not roots:
                i = rng.choice([j for j in g.ids() if g.kind[j] == "node"][-5:])
                if not roots and rng.random() < 0.7 and g.gradient_bounded(i): g.emit("step", i)   # a manual backpropagation would leave gradients to the optimizers
                else: g.emit("run", i, rng.choice([0, 1]))
                done += 1
            else:
                o = rng.randint(1, len(roots)); i = roots[o - 1]; adj = g.gradients(i)
                if not g.gradient_bounded(i): continue
                keep, kg = dict(g.mag), dict(g.gain); new, nd = {}, dict(drift)
                for v in g.vars:
                    l1, l2 = g.l[v]
                    nd[v] = max(drift[v], abs(lr[o]) * ((adj[v] + l1 + 2 * l2 * g.mag[v]) if v in adj else 0) + mom * drift[v]); new[v] = g.mag[v] + nd[v]
                ok = all(x <= LIMV // 50 for x in new.values())
                if ok: g.mag.update(new); ok = g.rebound()
                if not ok:
                    g.mag.clear(); g.mag.update(keep); g.gain.clear(); g.gain.update(kg)
                    if not mom: fresh()
                    continue
                drift = nd; g.emit("train", o, rng.choice([1, 1, 2]), []); done += 1
        if done: return g.text()
