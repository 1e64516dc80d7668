"""Statically typed expression graphs: random programs over expression graphs, translated into C++ source in which every
expression has the type the library's operators give it (in the other drivers the types are erased)."""
import os, re
from common import BUILD, HARN
import gen_graph as gg

OPS = {}
def table():
    """operator -> C++ expression over a[0], a[1], p and c, read from the sources of the graph driver"""
    if not OPS:
        for f in ("gops_arith.cc", "gops_elem.cc", "gops_struct.cc", "gops_image.cc"):
            for op, ex in re.findall(r'op == "(\w+)" \) out = B\{ (.*) \};', open(os.path.join(HARN, f)).read()): OPS[op] = re.sub(r"KEPT\( (.*) \)\( a", r"\1( a", ex)
        OPS["upsample"] = "upsampling_2d( p[0] )( a[0] )"
        OPS["im2c"] = "img2col( p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7] )( a[0] )"
    return OPS

def program(rng):
    """(text, [(number, operator, arguments, parameters)], roots)"""
    images = rng.random() < 0.35
    mix = [(gg.ARITH, 4), (gg.ELEM, 3), (gg.STRUCT, 3)] + ([(gg.IMAGE, 4)] if images else [])
    while True:
        g = gg.GProg(rng, mix, images=images)
        for _ in range(rng.choice([1, 2, 2, 3])): g.leaf()
        g.cur = 0
        for _ in range(rng.randint(2, 7)): g.grow()
        nodes = [i for i in g.sh if g.kind[i] == "node"]
        if not nodes: continue
        paths = {}
        for j in sorted(g.sh): paths[j] = 1 + sum(paths[x] for x in g.args[j])
        nodes = [i for i in nodes if paths[i] <= 60]      # the size of the type of an expression
        if len(nodes) < 2 or max(paths.values()) > 60: continue
        roots = sorted(set([nodes[-1]] + rng.sample(nodes, min(2, len(nodes)))))
        built = []
        for e in g.ev:
            w = e.split()
            if w[0] != "node": continue
            n = int(w[3]); built.append((int(w[1]), w[2], [int(x) for x in w[4:4 + n]], [int(x) for x in w[5 + n:]]))
        for i in g.sh:
            if rng.random() < 0.5: g.emit("shape", i)
        for _ in range(rng.randint(4, 9)):
            c = rng.random()
            if c < 0.3 and g.phs: g.scenario(rng.randrange(g.ns))
            elif c < 0.45 and g.vars:
                v = rng.choice(g.vars); s = g.sh[v][0]; g.emit("set", v, g.vals(gg.prod(s), g.rest(s, g.mag[v])))
            elif c < 0.55 and g.vars: g.emit("vfreeze", rng.choice(g.vars), rng.choice([0, 1]))
            if rng.random() < 0.5: g.emit("graph", rng.choice(roots), rng.randint(0, 1))
            root = rng.choice(nodes)
            if rng.random() < 0.7 and g.gradient_bounded(root): g.emit("step", root)
            else: g.emit("run", root, rng.choice([0, 1]))
        for r in roots: g.emit("graph", r, rng.randint(0, 1))
        return g, built, roots

def source(k, g, built, roots):
    """the function that builds the graph of program number k"""
    o = [f"static void build_{k}( world& w )", "{"]
    for i in g.sh:
        if g.kind[i] == "var": o.append(f"    auto n{i} = w.V.at( {i} );")
        if g.kind[i] == "con": o.append(f"    constant<T> n{i}{{ w.C.at( {i} ) }};")
        if g.kind[i] == "ph": o.append(f"    auto n{i} = w.P.at( {i} );")
        if g.kind[i] != "node": o.append(f"    w.N.erase( {i} ); w.N.emplace( {i}, B{{ n{i} }} ); w.names[{i}] = n{i}.name();"); continue
        _, op, a, p = next(b for b in built if b[0] == i)
        ex = re.sub(r"a\[(\d)\]", lambda m: f"n{a[int(m[1])]}", table()[op])
        o.append(f"    pars p{i}{{ {', '.join(f'{x}L' for x in p)} }}; VT const c{i} = p{i}.size() ? VT( p{i}[0] ) : VT( 0 );")
        ex = re.sub(r"\bp\b", f"p{i}", re.sub(r"\bc\b", f"c{i}", ex))
        o.append(f"    auto n{i} = {ex};")
        o.append(f"    w.N.emplace( {i}, B{{ n{i} }} ); w.names[{i}] = n{i}.name();")
    for r in roots:
        o.append(f"    w.graph[{r}] = [n{r}]{{ return computation_graph( n{r} ); }};")
        ph = next((i for i in g.phs), None)
        if ph: o.append(f"    w.summary[{r}] = [n{r}, n{ph}]( std::string const& f ){{ model m{{ n{ph}, n{r} }}; if ( f.empty() ) m.summary(); else m.summary( f ); }};")
    o.append("}")
    o.append(f"static bool const r_{k} = ( statics()[{k}] = build_{k}, true );")
    return "\n".join(o)

def programs(rng, n, tag, units=8):
    """n programs and the sources of their graphs"""
    ps, src = {}, [[] for _ in range(min(units, n))]
    for k in range(1, n + 1):
        g, built, roots = program(rng)
        src[k % len(src)].append(source(k, g, built, roots))
        ps[k] = f"static {k} ; " + g.text()
    d = os.path.join(BUILD, "statics", tag); os.makedirs(d, exist_ok=True)
    files = []
    for j, s in enumerate(src):
        f = os.path.join(d, f"statics{j}.cc")
        open(f, "w").write('#include "world.hpp"\nusing namespace ceras;\ntypedef value<VT> V;\nstatic auto pad = []( long s ){ return std::string( s == 1 ? "same" : "valid" ); };\n' + "\n".join(s) + "\n")
        files.append(f)
    return ps, files
