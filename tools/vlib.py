"""Common machinery: TLC runs, behaviour generation, driver builds, replay, trace validation, evidence."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not run (not a statement about the code)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, ".build", pid)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = self.steps = 0
        self.models, self.samples, self.actions, self.violations = [], [], {}, []
        self.extra = {}
        self.objects, self.lock, self.pool = {}, threading.Lock(), cf.ThreadPoolExecutor(4)
        self.rng = random.Random(seed * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))

    thorough = property(lambda s: s.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, what, replay_obj):
        path = os.path.join(self.replays, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, **replay_obj), f, indent=1)
        self.violations.append((what, path))
        self.log("violation:", what)

    def evidence(self, level="model_checking", assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, steps_compared=self.steps,
                   models=self.models, actions_taken=self.actions, samples=self.samples[:4])
        cov.update(self.extra)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                           coverage=cov, assumptions=list(assumptions),
                           wall_s=round(time.time() - self.t0, 2),
                           violations=len(self.violations)), f, indent=1)


# ----------------------------------------------------------------------------------------- TLC

def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(repr(v))


class Raw(str):
    """A literal TLA+ expression used as a constant."""


def run_tlc(ctx, name, module_text, cfg_text, args=(), timeout=600, heap="6g", workers="1", props=None):
    d = os.path.join(ctx.dir, "tlc_" + name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(module_text)
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        f.write(cfg_text)
    out = os.path.join(d, "out.txt")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC]
    cmd += ["-D%s=%s" % kv for kv in (props or {}).items()]
    cmd += ["-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "states"), "-workers", str(workers),
            "-config", name + ".cfg", *args, name + ".tla"]
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return rc, out


def tlc_stats(out):
    gen = dist = depth = 0
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith("<<"):
                continue
            m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                gen = int(m.group(1))
            m = re.search(r"depth of the complete state graph search is (\d+)", line)
            if m:
                depth = int(m.group(1))
    return gen, dist, depth


def tlc_error(out):
    lines = [l.rstrip() for l in open(out, errors="replace") if not l.startswith("<<")]
    err = [l for l in lines if "Error:" in l or "is violated" in l or "Exception" in l]
    return "\n".join(err[:6] or lines[-12:])


def printed(out, tag):
    """Values printed by PrintT(<<tag, ToJson(..)>>)."""
    pre = '<<"%s", "' % tag
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith(pre):
                s = line.rstrip("\n")
                assert s.endswith('">>'), s[:200]
                # TLA+ string literal with the JSON text in it; the escapes are the JSON ones
                yield json.loads(json.loads('"' + s[len(pre):-3] + '"'))


def consts(c):
    defs, cfg = [], []
    for k, v in c.items():
        if k.startswith("Pick"):
            continue
        defs.append("c_%s == %s" % (k, v if isinstance(v, Raw) else tla(v)))
        cfg.append("CONSTANT %s <- c_%s" % (k, k))
    return "\n".join(defs), "\n".join(cfg)


def canon(v):
    """Normal form for comparing TLC's JSON with the driver's: an empty function, sequence, set
    and object are all the same thing in TLA+."""
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()} if v else []
    if isinstance(v, list):
        return [canon(x) for x in v]
    return v


def key(v):
    return json.dumps(canon(v), sort_keys=True)


def graph(ctx, name, spec, constants, invariants=(), properties=(), constraint=None, picks=("Pick",),
          timeout=600, heap="8g"):
    """Exhaustive TLC run of `spec`; every transition of the state graph is exported.
    Returns (edges, init): edges = list of (from, op, to, obs) with from/to node ids."""
    defs, ccfg = consts(constants)
    mod = "G_" + name
    text = """---- MODULE %s ----
EXTENDS %s, Json
%s
PickAll(S) == S
View_ == St
Edge_ == PrintT(<<"E", ToJson([f |-> St, o |-> op', t |-> St', x |-> Obs'])>>)
Start_ == op.n = "init" => PrintT(<<"I", ToJson(St)>>)
====
""" % (mod, spec, defs)
    cfg = "INIT Init\nNEXT Next\nVIEW View_\nACTION_CONSTRAINT Edge_\nCHECK_DEADLOCK FALSE\nINVARIANT Start_\n" + ccfg + "\n"
    for p in picks:
        cfg += "CONSTANT %s <- PickAll\n" % p
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    for p in properties:
        cfg += "PROPERTY %s\n" % p
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    rc, out = run_tlc(ctx, mod, text, cfg, timeout=timeout, heap=heap)
    if rc != 0:
        raise CheckError("TLC on %s: rc %d\n%s" % (mod, rc, tlc_error(out)))
    gen, dist, depth = tlc_stats(out)
    ids, edges, inits = {}, [], []

    def nid(s):
        k = key(s)
        if k not in ids:
            ids[k] = len(ids)
        return ids[k]
    for s in printed(out, "I"):
        inits.append(nid(s))
    seen = set()
    for e in printed(out, "E"):
        f, t = nid(e["f"]), nid(e["t"])
        ek = (f, key(e["o"]))
        if ek in seen:
            continue
        seen.add(ek)
        edges.append((f, e["o"], t, canon(e["x"])))
        ctx.actions[e["o"]["n"]] = ctx.actions.get(e["o"]["n"], 0) + 1
    os.remove(out)
    ctx.states += dist
    ctx.transitions += len(edges)
    ctx.models.append(dict(model=name, spec=spec, mode="exhaustive", states=dist, transitions=len(edges),
                           generated=gen, depth=depth, checked=list(invariants) + list(properties)))
    ctx.log("TLC %s: %d states, %d transitions, depth %d" % (name, dist, len(edges), depth))
    if len(set(inits)) != 1:
        raise CheckError("%s: %d initial states" % (name, len(set(inits))))
    return edges, inits[0]


def walks(ctx, edges, init, maxlen=40, extra=0, extra_len=40):
    """Behaviours covering every transition, then `extra` random walks (the same abstract state is
    then reached along many different histories)."""
    adj = {}
    for n, (f, o, t, x) in enumerate(edges):
        adj.setdefault(f, []).append(n)
    parent, order = {init: None}, [init]
    for u in order:
        for n in adj.get(u, ()):
            t = edges[n][2]
            if t not in parent:
                parent[t] = n
                order.append(t)
    todo = {u: sorted(ns, reverse=True) for u, ns in adj.items()}

    def prefix(u):
        p = []
        while parent[u] is not None:
            p.append(parent[u])
            u = edges[parent[u]][0]
        return p[::-1]
    def near(v, limit=400):
        """Moves leading to the closest state with an uncovered transition."""
        q, seen = [(v, [])], {v}
        for u, path in q:
            if len(q) > limit:
                return None
            for n in adj.get(u, ()):
                t = edges[n][2]
                if t not in seen:
                    if todo.get(t):
                        return path + [n]
                    seen.add(t)
                    q.append((t, path + [n]))
        return None
    out = []
    for u in order:
        while todo.get(u):
            w, v = prefix(u), u
            lim = maxlen + len(w)
            while len(w) < lim:
                if todo.get(v):
                    w.append(todo[v].pop())
                else:
                    p = near(v)
                    if p is None:
                        break
                    w += p
                v = edges[w[-1]][2]
            out.append(w)
    for _ in range(extra):
        w, v = [], init
        while len(w) < extra_len and adj.get(v):
            ns = adj[v]
            # prefer moves that change the state
            mv = [n for n in ns if edges[n][2] != v]
            n = ctx.rng.choice(mv if mv and ctx.rng.random() < 0.7 else ns)
            w.append(n)
            v = edges[n][2]
        if w:
            out.append(w)
    return [[dict(o=edges[n][1], x=edges[n][3]) for n in w] for w in out]


def simulate(ctx, name, spec, constants, num, depth, invariants=(), properties=(), picks=("Pick",),
             timeout=600, split=None):
    """Random behaviours of `spec` over large constants (one random argument per step)."""
    defs, ccfg = consts(constants)
    mod = "S_" + name
    text = """---- MODULE %s ----
EXTENDS %s, Json, Randomization
VARIABLES hist, done
%s
PickOne(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
SInit == Init /\\ hist = <<>> /\\ done = FALSE
SNext == \\/ /\\ Len(hist) < %d /\\ ~done /\\ Next
            /\\ hist' = Append(hist, [o |-> op', x |-> Obs'])
            /\\ UNCHANGED done
         \\/ /\\ Len(hist) = %d /\\ ~done /\\ done' = TRUE
            /\\ UNCHANGED <<vars, hist>>
            /\\ PrintT(<<"H", ToJson(hist)>>)
====
""" % (mod, spec, defs, depth, depth)
    cfg = "INIT SInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\n" + ccfg + "\n"
    for p in picks:
        cfg += "CONSTANT %s <- PickOne\n" % p
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    for p in properties:
        cfg += "PROPERTY %s\n" % p
    split = split or min(NCPU, max(1, num // 20))
    parts = [num // split + (1 if i < num % split else 0) for i in range(split)]

    def one(i):
        return run_tlc(ctx, mod if i == 0 else mod + "_%d" % i,
                       text if i == 0 else text.replace("MODULE " + mod, "MODULE %s_%d" % (mod, i)),
                       cfg, args=["-simulate", "num=%d" % parts[i], "-depth", str(depth + 2),
                                  "-seed", str(ctx.seed * 1000 + 17 * i + 1)],
                       timeout=timeout, heap="2g")
    with cf.ThreadPoolExecutor(split) as ex:
        res = list(ex.map(one, [i for i in range(split) if parts[i]]))
    behs, gen = [], 0
    for rc, out in res:
        if rc != 0:
            raise CheckError("TLC simulation %s: rc %d\n%s" % (mod, rc, tlc_error(out)))
        gen += tlc_stats(out)[0]
        for h in printed(out, "H"):
            behs.append([dict(o=s["o"], x=canon(s["x"])) for s in h])
            for s in h:
                ctx.actions[s["o"]["n"]] = ctx.actions.get(s["o"]["n"], 0) + 1
        os.remove(out)
    ctx.states += gen
    ctx.transitions += sum(len(b) for b in behs)
    ctx.models.append(dict(model=name, spec=spec, mode="simulation", behaviours=len(behs), depth=depth,
                           states_generated=gen, checked=list(invariants) + list(properties)))
    ctx.log("TLC simulate %s: %d behaviours of length %d (%d states)" % (name, len(behs), depth, gen))
    if len(behs) < num // 2:
        raise CheckError("simulation %s produced only %d of %d behaviours" % (name, len(behs), num))
    return behs


# --------------------------------------------------------------------------------------- build

BASE = ["-std=c++20", "-g1", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0", "-DNEOFOAM_DP_SCALAR=1", "-w", "-pthread"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-O1", "-fsanitize=thread"]
CORE_SRC = ["src/core/database/database.cpp", "src/core/database/collection.cpp",
            "src/core/database/document.cpp", "src/core/dictionary.cpp", "src/core/demangle.cpp",
            "src/core/tokenList.cpp", "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"]


def repo_sources(*globs):
    import glob
    r = []
    for g in globs:
        r += sorted(glob.glob(os.path.join(REPO, g), recursive=True))
    return [os.path.relpath(p, REPO) for p in r]


def library_sources():
    """The sources src/CMakeLists.txt names, and any other the directory holds."""
    src = os.path.join(REPO, "src")
    with open(os.path.join(src, "CMakeLists.txt")) as f:
        named = [x for x in re.findall(r'^\s*(#?)[^#\n"]*"([^"\n]+\.cpp)"', f.read(), re.M)]
    out = [os.path.join(src, n) for c, n in named if not c]
    return [s for s in dict.fromkeys(out) if os.path.exists(s)]


def build(ctx, name, driver, repo_src=(), flags=SAN, defs=(), includes=(), libs=(), cxx="g++"):
    """Compiles a driver of /verif/harness with sources of the current /repo tree."""
    d = os.path.join(ctx.dir, "bin_" + name)
    os.makedirs(d, exist_ok=True)
    inc = []
    for i in includes:
        inc += ["-I", i]
    inc += ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness")]
    srcs = [os.path.join(VERIF, "harness", x) for x in ([driver] if isinstance(driver, str) else driver)]
    srcs += [os.path.join(REPO, s) for s in dict.fromkeys(repo_src)]
    for s in srcs:
        if not os.path.exists(s):
            raise CheckError("missing source " + s)

    # library objects are shared by the drivers of a check: only NF_... settings mean something to them
    def one(a):
        n, s = a
        lib = s.startswith(REPO + os.sep)
        ds = [x for x in defs if not lib or x.startswith("NF_")]
        o = os.path.join(d, "%d_%s.o" % (n, os.path.basename(s)))
        cmd = [cxx, *BASE, *flags, *["-D" + x for x in ds], *inc, "-c", s]
        key = tuple(cmd)
        with ctx.lock:
            mine = not lib or key not in ctx.objects
            done = cf.Future() if mine else ctx.objects[key]
            if lib:
                ctx.objects[key] = done
        if mine:
            try:
                done.set_result((o, s, subprocess.run([*cmd, "-o", o], capture_output=True, text=True)))
            except BaseException as e:
                done.set_exception(e)
        return done.result()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, enumerate(srcs)))
    for o, s, r in res:
        if r.returncode != 0:
            raise CheckError("does not compile: %s\n%s" % (s, "\n".join(
                [l for l in r.stderr.splitlines() if "error" in l][:8] or r.stderr.splitlines()[:8])))
    exe = os.path.join(d, name)

    def link(objs):
        return subprocess.run([cxx, *flags, "-pthread", *objs, "-o", exe, *libs], capture_output=True, text=True)
    r = link([o for o, _, _ in res])
    if r.returncode != 0 and "undefined reference" in r.stderr:
        # code may have moved to another source file of the library: offer the linker all that compile
        rest = [(1000 + i, s) for i, s in enumerate(library_sources()) if s not in srcs]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            more = [o for o, s, x in ex.map(one, rest) if x.returncode == 0]
        lib = os.path.join(d, "librest.a")
        subprocess.run(["ar", "rcs", lib, *more], check=True, capture_output=True)
        r = link([*[o for o, _, _ in res], lib])
    if r.returncode != 0:
        raise CheckError("does not link: %s\n%s" % (name, r.stderr[-1500:]))
    ctx.log("built", name)
    return exe


def later(ctx, f, *a, **kw):
    """Starts building; exhaustive and sampled wait for it when they come to the replay."""
    return ctx.pool.submit(f, ctx, *a, **kw)


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=0",
           TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0")


# -------------------------------------------------------------------------------------- replay

def _drive(exe, behs, ids, args=(), timeout=300):
    """Runs behaviours through the driver. Yields (id, steps, failure)."""
    inp = "\n".join(json.dumps(dict(b=i, ops=[s["o"] for s in behs[i]])) for i in ids) + "\n"
    try:
        p = subprocess.run([exe, *args], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=ENV, timeout=timeout)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, so, se = "timeout", e.stdout or b"", e.stderr or b""
    res, done = {}, set()
    for line in so.decode(errors="replace").splitlines():
        if not line.startswith("{"):
            continue
        try:
            r = json.loads(line)
        except ValueError:
            continue
        if "end" in r:
            done.add(r["end"])
        elif "b" in r:
            res.setdefault(r["b"], []).append(r)
    return rc, res, done, se.decode(errors="replace")


def compare(beh, got):
    """First disagreement between a behaviour of the specification and what the code did."""
    for i, s in enumerate(beh):
        if i >= len(got):
            return i, "no answer from the code", None
        g = got[i]
        exp_r, exp_x = canon(s["o"].get("r")), s["x"]
        if canon(g.get("r")) != exp_r:
            return i, "result", dict(expected=exp_r, got=canon(g.get("r")))
        if canon(g.get("x")) != exp_x:
            return i, "state", dict(expected=exp_x, got=canon(g.get("x")))
    return None


def replay(ctx, suite, exe, behs, args=(), timeout=600, jobs=NCPU, maxviol=3, describe=None):
    """Steps every behaviour through the real code; results and projected state must agree after
    every step."""
    if isinstance(exe, cf.Future):
        exe = exe.result()
    todo = list(range(len(behs)))
    chunks = [todo[i::jobs] for i in range(jobs) if todo[i::jobs]]

    def work(ids):
        bad, ids = [], list(ids)
        nsteps = 0
        while ids:
            rc, res, done, err = _drive(exe, behs, ids, args, timeout)
            nxt = None
            for pos, i in enumerate(ids):
                got = res.get(i, [])
                nsteps += len(got)
                c = compare(behs[i], got)
                if c:
                    bad.append((i, c, rc, err))
                if i not in done:
                    nxt = pos
                    if not c:
                        bad.append((i, (len(got), "the code did not return", None), rc, err))
                    break
            if nxt is None or len(bad) >= 10:
                break
            ids = ids[nxt + 1:]
        return bad, nsteps
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(work, chunks))
    ctx.steps += sum(n for _, n in res)
    bad = sorted((b for bs, _ in res for b in bs), key=lambda b: len(behs[b[0]]))
    ctx.traces += len(behs) - len(bad)
    if behs and len(ctx.samples) < 4:
        b = behs[len(behs) // 2]
        ctx.samples.append(dict(suite=suite, ops=[s["o"] for s in b][:6], final=b[-1]["x"] if len(b) <= 6 else b[5]["x"]))
    ctx.log("%s: %d behaviours replayed (%d steps), %d disagree" % (suite, len(behs), sum(n for _, n in res), len(bad)))
    reported = 0
    for i, c, rc, err in bad:
        if reported >= maxviol:
            break
        # only what repeats is reported
        again = []
        for _ in range(2):
            rc2, res2, done2, err2 = _drive(exe, behs, [i], args, timeout)
            c2 = compare(behs[i], res2.get(i, []))
            if c2 is None and i not in done2:
                c2 = (len(res2.get(i, [])), "the code did not return", None)
            again.append((c2, rc2, err2))
        if not all(a[0] for a in again):
            # the failure needs the preceding behaviours in the same process: run the chunk again
            ch = next(cx for cx in chunks if i in cx)
            pre = ch[:ch.index(i) + 1]
            rc2, res2, done2, err2 = _drive(exe, behs, pre, args, timeout)
            c2 = compare(behs[i], res2.get(i, []))
            if c2 is None and i in done2:
                ctx.log("not repeatable, ignored:", c)
                continue
            again = [(c2 or c, rc2, err2)]
        c, rc, err = again[0]
        reported += 1
        step = behs[i][c[0]]["o"] if c[0] < len(behs[i]) else None
        what = "%s: after %d step(s), %s: %s differs: %s" % (
            suite, c[0], json.dumps(step)[:300], c[1], json.dumps(c[2])[:500])
        if c[2] is None:
            what += " (exit %s) %s" % (rc, " | ".join(l for l in err.splitlines() if l.strip())[:400])
        ctx.violation(what, dict(suite=suite, driver=os.path.basename(exe), args=list(args),
                                 behaviour=behs[i], step=c[0], stderr=err[-2000:]))
    return not bad


# --------------------------------------------------------------------------- trace validation

def validate(ctx, suite, spec, trace_lines, constants=None, timeout=300, report=True, extra_cfg="",
             heap="4g", name=None, note=None, mincov=True, depth_first=False):
    """A recorded trace must be a behaviour of the trace specification (POSTCONDITION TraceAccepted).
    trace_lines: list of JSON-able events. Returns True when accepted."""
    name = name or "T_" + suite
    d = os.path.join(ctx.dir, "tlc_" + name)
    os.makedirs(d, exist_ok=True)
    tf = os.path.join(d, "trace.ndjson")
    with open(tf, "w") as f:
        for e in trace_lines:
            f.write(json.dumps(e) + "\n")
    defs, ccfg = consts(constants or {})
    text = "---- MODULE %s ----\nEXTENDS %s\n%s\nTraceFile_ == \"trace.ndjson\"\n====\n" % (name, spec, defs)
    cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\nCONSTANT TraceFile <- TraceFile_\n"
    cfg += ccfg + "\n" + extra_cfg
    props = {"tlc2.tool.queue.IStateQueue": "StateDeque"} if depth_first else None
    ok = None
    for attempt in range(2):
        rc, out = run_tlc(ctx, name, text, cfg, timeout=timeout, heap=heap, props=props)
        gen, dist, depth = tlc_stats(out)
        txt = open(out, errors="replace").read()
        if rc == 0:
            ok = True
            break
        if "TraceAccepted" in txt and ("violated" in txt or "evaluated to FALSE" in txt or "false" in txt.lower()) \
                or "is violated" in txt:
            ok = False
            continue
        raise CheckError("TLC trace validation %s: rc %s\n%s" % (name, rc, tlc_error(out)))
    ctx.states += dist
    ctx.transitions += gen
    if ok:
        ctx.traces += 1
        ctx.steps += len(trace_lines)
    elif report:
        reached = max([int(x) for x in re.findall(r'<<"REACHED", (\d+)>>', txt)] or [depth])
        ev = trace_lines[reached - 1] if 0 < reached <= len(trace_lines) else None
        ctx.violation("%s: recorded execution is not a behaviour of the specification; first event not "
                      "explained: #%d %s" % (suite, reached, json.dumps(ev)[:700]),
                      dict(suite=suite, spec=spec, trace=trace_lines[:reached + 3], reached=reached))
    return ok
