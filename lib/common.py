"""Shared machinery of the checks: building the drivers from /repo, running programs, TLC, verdicts, evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CORES = min(8, os.cpu_count() or 8)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "g++"
FLAGS = ("-std=c++20 -w -O1 -ffast-math -funsafe-math-optimizations -fdata-sections -ffunction-sections "
         "-ftemplate-depth=100860 -pthread").split()
LINK = "-pthread -Wl,--gc-sections -Wl,-z,muldefs".split()

class Infra(Exception):
    """the machinery failed; says nothing about the property"""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ building
def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def _repo_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(d, f) for f in fs]
    return out

def _evict():
    """keep the object cache small"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)
        while len(fs) > 120:
            os.unlink(fs.pop(0))
    except OSError:
        pass

def build_all(specs):
    """specs: list of (name, [sources], [defines/flags]); returns {name: executable}. Everything compiles in parallel."""
    os.makedirs(BUILD, exist_ok=True)
    hdrs = [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith(".hpp")]
    base = _hash(_repo_files() + hdrs, " ".join(FLAGS))
    jobs, exes = {}, {}
    for name, srcs, defs in specs:
        objs = []
        for s in srcs:
            sp = os.path.join(HARN, s)
            key = _hash([sp], base + " ".join(defs))
            o = os.path.join(BUILD, f"{os.path.splitext(os.path.basename(s))[0]}-{key}.o")
            objs.append(o)
            if not os.path.exists(o):
                jobs[o] = [CXX, *FLAGS, *defs, "-I" + os.path.join(REPO, "include"), "-I" + HARN, "-c", sp]
        exes[name] = objs
    def comp(item):
        o, cmd = item
        tmp = f"{o}.{os.getpid()}.tmp"
        r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise Infra("compilation failed: " + " ".join(cmd) + "\n" + r.stderr[-3000:])
        os.replace(tmp, o)
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(comp, jobs.items()))
    out = {}
    for name, objs in exes.items():
        e = os.path.join(BUILD, f"{name}-{hashlib.sha256(''.join(objs).encode()).hexdigest()[:20]}.exe")
        if not os.path.exists(e):
            tmp = f"{e}.{os.getpid()}.tmp"
            r = subprocess.run([CXX, *objs, "-o", tmp, *LINK], capture_output=True, text=True)
            if r.returncode:
                raise Infra("link failed: " + r.stderr[-3000:])
            os.replace(tmp, e)
        for o in objs: os.utime(o)
        os.utime(e)
        out[name] = e
    _evict()
    return out

# ------------------------------------------------------------------ scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        os.chmod(_scratch, 0o755)
    return _scratch

def cleanup():
    global _scratch
    if _scratch and _scratch.startswith(tempfile.gettempdir() + "/verif-"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None

# ------------------------------------------------------------------ running programs
HUNG = "signal 14"
def run_programs(exe, programs, timeout=600, prog_timeout=30, env=None, shards=CORES):
    """programs: {id: text}. Returns {id: record}."""
    d = tempfile.mkdtemp(dir=scratch())
    pf = os.path.join(d, "programs")
    with open(pf, "w") as f:
        for i, t in programs.items():
            f.write(f"{i} {t}\n")
    e = dict(os.environ, VERIF_PROG_TIMEOUT=str(prog_timeout))
    if env: e.update(env)
    shards = max(1, min(shards, len(programs)))
    def one(k):
        out = os.path.join(d, f"out{k}")
        wd = os.path.join(d, f"wd{k}"); os.makedirs(wd)
        try:
            r = subprocess.run([exe, pf, out, str(k), str(shards)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=wd)
        except subprocess.TimeoutExpired:
            raise Infra("driver timed out: " + exe)
        if r.returncode != 0:
            raise Infra(f"driver failed ({r.returncode}): {r.stderr.decode(errors='replace')[-800:]}")
        recs = []
        for line in open(out, errors="replace"):
            if line.strip(): recs.append(json.loads(line))
        return recs
    res = {}
    with cf.ThreadPoolExecutor(shards) as ex:
        for recs in ex.map(one, range(shards)):
            for r in recs: res[r["id"]] = r
    shutil.rmtree(d, ignore_errors=True)
    if len(res) != len(programs) and not any(r.get("crash") == HUNG for r in res.values()): # a driver gives up after three programs that did not end
        raise Infra(f"driver returned {len(res)} of {len(programs)} programs")
    return res

# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.lines = [l[1:-1].replace('\\"', '"') for l in out.splitlines() if len(l) > 1 and l[0] == '"' and l[-1] == '"']
        self.ok = "Model checking completed. No error has been found." in out
        self.simulated = re.search(r"states checked", out) is not None

def tlc(module, cfg=None, env=None, workers=CORES, timeout=600, args=(), heap="6g", consts=None):
    """run TLC on /verif/spec/<module>.tla; consts: text of an extra configuration (written to the scratch directory)"""
    d = tempfile.mkdtemp(dir=scratch())
    if consts is not None:
        cfgp = os.path.join(d, "run.cfg")
        open(cfgp, "w").write(consts)
    else:
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/meta",
           "-noGenerateSpecTE", "-config", cfgp, *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    if env: e.update(env)
    try:
        with open(os.path.join(d, "out"), "w") as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, env=e, cwd=d)
            end, seen, tail = time.time() + timeout, None, open(of.name, errors="replace")
            while True:
                try: p.wait(timeout=0.1); break
                except subprocess.TimeoutExpired: pass
                now = time.time()
                if now > end:
                    p.kill(); p.wait()
                    raise Infra(f"TLC timed out on {module}")
                # after an error in an evaluation TLC repeats it to find the call stack, which can take for ever
                if seen is None and any(x.startswith("Error: ") for x in tail): seen = now
                if seen is not None and now > seen + 6: p.kill(); p.wait(); break
        out = open(os.path.join(d, "out"), errors="replace").read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return Tlc(out, p.returncode)

def model_check(module, cfg=None, consts=None, timeout=600, args=()):
    """exhaustive check of a design/algebra module: must hold; it does not depend on /repo"""
    t = tlc(module, cfg, consts=consts, timeout=timeout, args=args)
    if not t.ok:
        raise Infra(f"the specification {module} does not satisfy its own properties:\n" + t.out[-3000:])
    return t

def validate(module, records, cfg="Trace.cfg", timeout=800, consts=None, workers=CORES, env=None):
    """validate trace records (dicts) with trace specification `module`.  Returns (rejects, Tlc):
    rejects: list of {"id","pos","op","why":[..],"text"}"""
    t, rejects, oks, recs = validate_once(module, records, cfg, timeout, consts, workers, env)
    if not recs: return [], t
    if not t.ok:
        failed = "\n".join(x for x in t.out.splitlines() if not x.startswith(("Linting", "Semantic", "Parsing", '"OK')))[-3500:]
        if "Error: " not in t.out: raise Infra(f"TLC failed on {module}:\n" + failed)
        more = unjudged(module, [r for r in recs if r["id"] not in oks | {x["id"] for x in rejects}], cfg, consts, env, failed)
        return rejects + more, t
    seen = oks | {r["id"] for r in rejects}
    if seen != {r["id"] for r in recs}:
        raise Infra(f"{module}: {len(recs) - len(seen)} programs were neither accepted nor rejected")
    return rejects, t

def unjudged(module, recs, cfg, consts, env, failed, want=3, budget=240):
    """the evaluation of some record fails: what was recorded does not even have the form the specification describes.
    Finds such records (at most `want`) and the event; the rest is judged as usual"""
    from concurrent.futures import ThreadPoolExecutor
    rejects, end = [], time.time() + budget
    def one(rs):
        t, rej, ok, _ = validate_once(module, rs, cfg, 100, consts, 1, env)
        return rs, t, rej, ok
    groups = [recs[k::16] for k in range(16) if recs[k::16]]
    bad = 0
    while groups and bad < want and time.time() < end:
        nxt = []
        with ThreadPoolExecutor(6) as ex:
            for rs, t, rej, ok in ex.map(one, groups[:24]):
                rejects += rej
                if t.ok: continue
                left = [r for r in rs if r["id"] not in ok | {x["id"] for x in rej}]
                if len(left) > 1: nxt += [left[k::4] for k in range(4) if left[k::4]]
                elif left:
                    r = left[0]; lo, hi = 0, len(r["ev"])      # the first lo events can be judged, the first hi cannot
                    while hi - lo > 1:
                        m = (lo + hi) // 2
                        if one([dict(r, ev=r["ev"][:m])])[1].ok: lo = m
                        else: hi = m
                    bad += 1
                    op = r["ev"][hi - 1].get("op", "?")
                    rejects.append({"id": r["id"], "pos": hi - 1, "op": op, "why": ["form"], "text": f"REJECT {r['id']} {hi - 1} {op} : form : what was recorded cannot be judged: " + " ".join(failed[failed.find("Error: "):].split())[:600]})
        groups = nxt + groups[24:]
    if not bad: raise Infra(f"TLC failed on {module}:\n" + failed)
    return rejects

def validate_once(module, records, cfg="Trace.cfg", timeout=800, consts=None, workers=CORES, env=None):
    d = tempfile.mkdtemp(dir=scratch())
    tf = os.path.join(d, "trace.ndjson")
    recs = [r for r in records if r.get("ev")]
    with open(tf, "w") as f:
        for r in recs: f.write(json.dumps(r, separators=(",", ":")) + "\n")
    if not recs:
        return Tlc("", 0), [], set(), []
    e = {"TRACE": tf}
    if env: e.update(env)
    t = tlc(module, cfg, env=e, timeout=timeout, consts=consts, workers=workers)
    shutil.rmtree(d, ignore_errors=True)
    rejects, oks = [], set()
    for l in t.lines:
        if l.startswith("OK "): oks.add(int(l.split()[1]))
        elif l.startswith("REJECT "):
            m = re.match(r"REJECT (-?\d+) (-?\d+) (\S+) : ([^:]*): ?(.*)", l)
            if not m: raise Infra("cannot parse " + l)
            rejects.append({"id": int(m[1]), "pos": int(m[2]), "op": m[3], "why": m[4].split(), "text": l})
    return t, rejects, oks, recs

# ------------------------------------------------------------------ verdict
class Check:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.states = self.transitions = self.traces = 0
        self.cov, self.samples, self.violations, self.known, self.assumptions = {}, [], [], [], []
        self.findings = load_findings(prop)
    def model(self, name, t):
        self.states += t.distinct; self.transitions += t.generated
        self.cov.setdefault("models", {})[name] = {"distinct_states": t.distinct, "generated": t.generated}
    def traced(self, name, records, t, events=None):
        n = len([r for r in records if r.get("ev")])
        self.states += t.distinct; self.transitions += t.generated; self.traces += n
        c = self.cov.setdefault("traces", {}).setdefault(name, {"programs": 0, "events": 0})
        c["programs"] += n
        c["events"] += sum(len(r["ev"]) for r in records) if events is None else events
    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)
    def violation(self, key, what, replay):
        """key identifies the failing input/op for the known-findings file"""
        for f in self.findings:
            if f["key"] == key:
                if f not in self.known: self.known.append(f)
                return
        self.violations.append({"key": key, "what": what, "replay": replay})
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], **self.cov}
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        if self.violations:
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".txt")
            with open(path, "w") as f:
                for v in self.violations[:50]:
                    f.write(f"property {self.prop}\nkey {v['key']}\n{v['what']}\n{v['replay']}\n\n")
            for v in self.violations[:5]: log("  " + v["key"] + ": " + v["what"][:600])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces} wall={ev['wall_s']}s", flush=True)
        return 0

def load_findings(prop):
    """known_findings.txt: lines 'KNOWN-FINDING: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop: out.append({"key": m[2], "what": m[3]})
    return out

def conform(check, name, exe, programs, module, owns, keyfn=None, crash_owner=None, run_kw=None, val_kw=None):
    """Run the programs, validate the traces, confirm rejections by a second run, report those the property owns.
    owns(reject) -> bool; crash_owner(record) -> bool; keyfn(reject_or_record, program) -> key"""
    run_kw, val_kw = run_kw or {}, val_kw or {}
    recs = run_programs(exe, programs, **run_kw)
    records = list(recs.values())
    rejects, t = validate(module, records, **val_kw)
    check.traced(name, records, t)
    for i in list(programs)[:2]: check.sample({"driver": name, "program": programs[i][:600]})
    crashes = [r for r in records if r.get("crash")]
    mine = [r for r in rejects if (crash_owner or (lambda c: True))(r) and r["why"] == ["form"] or r["why"] != ["form"] and owns(r)]
    cmine = [c for c in crashes if (crash_owner or (lambda c: True))(c)]
    other = len(rejects) - len(mine) + len(crashes) - len(cmine)
    if other: check.cov["rejections_owned_by_other_properties"] = check.cov.get("rejections_owned_by_other_properties", 0) + other
    if mine or cmine:   # confirm
        ids = {r["id"] for r in mine} | {c["id"] for c in cmine}
        ids = set(sorted(ids)[:60])
        again = run_programs(exe, {i: programs[i] for i in programs if i in ids}, **run_kw)
        rej2, _ = validate(module, list(again.values()), **val_kw)
        r2 = {r["id"] for r in rej2}
        c2 = {i for i, r in again.items() if r.get("crash")}
        for r in mine:
            if r["id"] in r2:
                k = keyfn(r, programs[r["id"]]) if keyfn else f"{name}:{r['op']}"
                check.violation(k, r["text"], f"driver {name}: program\n{r['id']} {programs[r['id']]}")
        for c in cmine:
            if c["id"] in c2:
                k = keyfn(c, programs[c["id"]]) if keyfn else f"{name}:crash:{c.get('op')}"
                check.violation(k, f"the library did not complete the program: {c['crash']} in operation {c.get('at')} ({c.get('op')})",
                                f"driver {name}: program\n{c['id']} {programs[c['id']]}")
    return recs, rejects

def canary(check, name, records, module, corrupt, want=3, val_kw=None):
    """demonstrate the binding: corrupted copies of accepted records must be rejected"""
    bad = []
    for r in records:
        c = corrupt(json.loads(json.dumps(r)))
        if c is not None: bad.append(c)
        if len(bad) >= want: break
    if not bad: return
    for k, b in enumerate(bad): b["id"] = k + 1
    rejects, _ = validate(module, bad, **(val_kw or {}))
    check.cov.setdefault("corrupted_traces", {})[name] = {"made": len(bad), "rejected": len({r["id"] for r in rejects})}
