"""Checks of the part that needs Kokkos: built against the stand-in in shim/."""
from vlib import *
from checks_core import exhaustive, sampled, depth

SHIM = [os.path.join(VERIF, "shim"), os.path.join(VERIF, "stub")]
EXEC_SRC = ["src/executor/CPUExecutor.cpp", "src/executor/GPUExecutor.cpp", "src/executor/serialExecutor.cpp",
            "src/core/primitives/vector.cpp"]
X3 = {"serial", "cpu", "gpu"}


def kbuild(ctx, name, driver, src, **kw):
    kw.setdefault("includes", [])
    return build(ctx, name, driver, src, **dict(kw, includes=SHIM + kw["includes"]))


FLD_P = ["Local", "StaysOnExecutor", "ReadsPure", "CopyIsEqual"]


def C10(ctx):
    P, V = ["OthersStay"], ["Laws", "CauchySchwarz"]
    exe = kbuild(ctx, "vector", "vector_driver.cpp", ["src/core/primitives/vector.cpp"])
    c = dict(Names={"a"}, Vals={-2, 0, 1, 3}, Limit=3, Acts={"make", "put", "arith", "ask"})
    exhaustive(ctx, "one", "Vector", c, V, P, exe, ["a"], extra=50)
    c = dict(Names={"a", "b"}, Vals={0, 2}, Limit=2, Acts={"make", "arith", "ask"})
    if ctx.thorough:
        exhaustive(ctx, "two", "Vector", c, V, P, exe, ["a", "b"], extra=50)
    c = dict(Names={"a", "b", "c"}, Vals={-7, -2, -1, 0, 1, 2, 3, 5, 40}, Limit=9000, Acts={"make", "put", "arith", "ask"})
    sampled(ctx, "three", "Vector", c, 400, 60, V, P, exe, ["a", "b", "c"])


def C15(ctx):
    copy = dict(Handles={"a", "b"}, Execs=X3, Lists=Raw("{<<>>, <<1, 2>>}"), Vals={2}, Sizes={2}, Limit=2,
                Scheds={1}, Acts={"copy"}, Debug=False)
    arith = dict(Handles={"a", "b"}, Execs={"cpu", "gpu"}, Lists=Raw("{<<1, 2, 0>>}"), Vals={2}, Sizes={2}, Limit=2,
                 Scheds={1}, Acts={"arith", "mul"}, Debug=False)
    rng = dict(Handles={"a"}, Execs=X3, Lists=Raw("{<<>>, <<1, 2, 3>>}"), Vals={2}, Sizes={0, 2, 3}, Limit=3,
               Scheds={1, 2}, Acts={"range"}, Debug=False)
    big = dict(Handles={"a", "b", "c"}, Execs=X3,
               Lists=Raw("{<<>>, <<5>>, <<1, 2, 3>>, <<-3, 0, 4, 7, 1, 2, 9>>, [i \\in 1..40 |-> i - 20], [i \\in 1..40 |-> 41 - i]}"),
               Vals={-1, 0, 1, 2, 3, -2}, Sizes={0, 1, 2, 3, 7, 40}, Limit=30000, Scheds=set(range(40)),
               Acts={"copy", "arith", "range", "mismatch"}, Debug=False)
    variants = (("scalar", "nf::scalar", ["HAS_MUL", "HAS_SUM"], True), ("Vector", "nf::Vector", [], False), ("label", "nf::label", ["NO_STAR", "HAS_SUM"], False))
    exes = {n: later(ctx, kbuild, "fields_" + n, "fields_driver.cpp", EXEC_SRC, defs=["ELEM=" + t, *defs]) for n, t, defs, _ in variants}
    debug = later(ctx, kbuild, "fields_debug", "fields_driver.cpp", EXEC_SRC, defs=["ELEM=nf::scalar", "HAS_MUL", "HAS_SUM", "NF_DEBUG"])
    for n, t, defs, mul in variants:
        exe = exes[n]
        m = ({"mul"} if mul else set()) | ({"sum"} if "HAS_SUM" in defs else set())
        sc = set() if n == "label" else {"scale"}  # integers have no product with a scalar
        if mul or ctx.thorough:
            exhaustive(ctx, "copies_" + n, "Fields", copy, ["TypeOK"], FLD_P, exe, ["a", "b"])
            exhaustive(ctx, "arith_" + n, "Fields", dict(arith, Acts={"arith"} | m | sc), ["TypeOK"], FLD_P, exe, ["a", "b"])
            exhaustive(ctx, "ranges_" + n, "Fields", rng, ["TypeOK"], FLD_P, exe, ["a"])
        sampled(ctx, "large_" + n, "Fields", dict(big, Acts=big["Acts"] | m | sc), 160, 60, ["TypeOK"], FLD_P, exe, ["a", "b", "c"])
    # debug builds: the same, and operands that do not go together stop the program
    sampled(ctx, "debug", "Fields", dict(big, Debug=True, Acts=big["Acts"] | {"mul", "scale", "sum"}), 120, 60, ["TypeOK"], FLD_P, debug, ["a", "b", "c"])


PAR_P = ["Monotone", "ExactlyOnce"]


def model(ctx, name, spec, constants, invariants=(), properties=(), fails=False, spec_name="Spec"):
    """A pure model run (no export). fails: a negative control, TLC must find a violation."""
    defs, ccfg = consts(constants)
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s\n" % (spec_name, ccfg)
    cfg += "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % p for p in properties)
    rc, out = run_tlc(ctx, "M_" + name, "---- MODULE M_%s ----\nEXTENDS %s\n%s\n====\n" % (name, spec, defs), cfg)
    if (rc == 0) == fails or (fails and rc not in (12, 13)):
        raise CheckError("model %s: rc %s\n%s" % (name, rc, tlc_error(out)))
    g, d, dep = tlc_stats(out)
    ctx.states += d
    ctx.transitions += g
    ctx.models.append(dict(model=name, spec=spec, states=d, generated=g, depth=dep,
                           checked=list(invariants) + list(properties),
                           outcome="violated, as it must be (negative control)" if fails else "holds"))
    ctx.log("model %s: %d states%s" % (name, d, ", violated as it must be" if fails else ""))


def C16(ctx):
    for body, fails in (("own", False), ("atomic", False), ("plain", True)):
        model(ctx, "run_" + body, "ParallelRun",
              dict(Workers={"p", "q", "r"} if ctx.thorough else {"p", "q"}, N=4, Body=body, Target=Raw("[i \\in 0..3 |-> i % 2]")),
              ["Deterministic", "Reduced"], [] if fails else ["Terminates"], fails)
    for n, t in (("scalar", "nf::scalar"), ("label", "nf::label")):
        exe = kbuild(ctx, "par_" + n, "parallel_driver.cpp", EXEC_SRC, defs=["ELEM=" + t])
        small = dict(Execs=X3, Lists=Raw("UNION {[1..n -> {-2, 3}] : n \\in 0..3}"), Inits={0, 7}, Ranges={0, 1, 2, 3},
                     Scheds={1, 10}, Acts={"basic"})
        if n == "scalar" or ctx.thorough:
            exhaustive(ctx, "small_" + n, "ParallelAlgorithms", small, ["TypeOK"], PAR_P, exe, [], maxlen=400)
        big = dict(Execs=X3, Lists=Raw("{[i \\in 1..m |-> ((i * k) % 13) - 6] : m \\in {0, 1, 2, 3, 5, 17, 33, 64}, k \\in 1..6}"),
                   Inits={-5, 0, 1, 9, 100}, Ranges={0, 1, 2, 3, 5, 8, 17, 31, 33, 64}, Scheds=set(range(40)), Acts={"basic"})
        sampled(ctx, "large_" + n, "ParallelAlgorithms", big, 160, 60, ["TypeOK"], PAR_P, exe, [])
        p = subprocess.run([exe, "--trace", "2000" if ctx.thorough else "400"], capture_output=True, text=True, env=ENV, timeout=120)
        if p.returncode:
            ctx.violation("recording launches ended with %s: %s" % (p.returncode, p.stderr[-400:]), dict(suite="launches"))
        else:
            validate(ctx, "launches_" + n, "ParallelRunTrace", [json.loads(l) for l in p.stdout.splitlines()])


def C17(ctx):
    for n, t in (("scalar", "nf::scalar"), ("label", "nf::label")):
        exe = kbuild(ctx, "seg_" + n, "parallel_driver.cpp", EXEC_SRC, defs=["ELEM=" + t])
        small = dict(Execs=X3, Lists=Raw("UNION {[1..n -> {0, 1, 2}] : n \\in 0..4}"), Inits={0}, Ranges={0}, Scheds={1, 10, 20},
                     Acts={"segments"})
        if n == "scalar" or ctx.thorough:
            exhaustive(ctx, "small_" + n, "ParallelAlgorithms", small, ["TypeOK"], PAR_P, exe, [], maxlen=400)
        big = dict(small, Lists=Raw("{[i \\in 1..m |-> (i * k) % j] : m \\in {0, 1, 2, 3, 5, 17, 33, 90}, k \\in 1..6, j \\in {1, 2, 5, 11}}"),
                   Scheds=set(range(40)))
        sampled(ctx, "large_" + n, "ParallelAlgorithms", big, 120, 60, ["TypeOK"], PAR_P, exe, [])


MPI_SRC = ["src/core/mpi/halfDuplexCommBuffer.cpp"]
HALO_P = ["Quiet", "OnlyHalo"]
SIM = [os.path.join(VERIF, "stub", "simmpi")]


def topology(rng, n, size, density=0.7, most=3, selfmsg=True):
    """Random consistent maps: what s sends to d fits what d expects from s."""
    cnt = [[rng.randint(1, most) if rng.random() < density and (selfmsg or s != d) else 0 for d in range(n)] for s in range(n)]
    send = [[[rng.randrange(size) for _ in range(cnt[s][d])] for d in range(n)] for s in range(n)]
    recv = []
    for d in range(n):
        free = list(range(size))
        rng.shuffle(free)
        row = []
        for s in range(n):
            k = min(cnt[s][d], len(free))
            send[s][d] = send[s][d][:k]
            row.append([free.pop() for _ in range(k)])
        recv.append(row)
    return send, recv


def halo(ctx, name, exe, n, names, send, recv, size, vals, ahead, sample=None):
    fields = sorted({x[0] for x in names})
    first = {k: [[10 * (r + 1) + i + 100 * fields.index(k) for i in range(size)] for r in range(n)] for k in fields}
    c = dict(NRanks=n, Names=set(names), Fields=set(fields), FieldOf={x: x[0] for x in names}, SendMap=send, RecvMap=recv,
             First=first, Vals=set(vals), MaxAhead=ahead)
    args = [str(n), ",".join(names), json.dumps(send), json.dumps(recv), json.dumps(first)]
    inv = ["TypeOK", "RightRound", "NoDeadlock"]
    if sample:
        sampled(ctx, name, "Halo", c, sample[0], sample[1], inv, HALO_P, exe, args)
    else:
        exhaustive(ctx, name, "Halo", c, inv, HALO_P, exe, args, constraint="Few")


def C19(ctx):
    src = EXEC_SRC + MPI_SRC + ["src/mesh/unstructured/communicator.cpp"]
    rel = kbuild(ctx, "halo", "halo_driver.cpp", src, defs=["NF_WITH_MPI_SUPPORT"], includes=SIM)
    dbg = kbuild(ctx, "halo_debug", "halo_driver.cpp", src, defs=["NF_WITH_MPI_SUPPORT", "NF_DEBUG"], includes=SIM)
    swap = [[[], [0]], [[0], []]], [[[], [1]], [[1], []]]
    halo(ctx, "two_ranks", rel, 2, ["s1"], *swap, 2, [7], 2)
    halo(ctx, "two_names", dbg, 2, ["s1", "s2"], *swap, 2, [], 1)
    ring = [[[], [0], []], [[], [], [0]], [[0], [], []]], [[[], [], [1]], [[1], [], []], [[], [1], []]]
    halo(ctx, "ring", dbg, 3, ["s1"], *ring, 2, [], 1)
    for t in range(12 if ctx.thorough else 6):
        n = 2 + t % 3
        names = [["s1", "l1", "v1"], ["s1", "s2", "s3", "l1"], ["v1", "s1"]][t % 3]
        send, recv = topology(ctx.rng, n, 8, density=0.8 if t % 2 else 0.5)
        halo(ctx, "random%d" % t, dbg if t % 2 else rel, n, names, send, recv, 8, [-3, 0, 5, 77], 3, (60, 60))


CB_P = ["StopsChangeNothing", "KeepsCounts", "SendsUntouched"]


def C18(ctx):
    exe = kbuild(ctx, "commbuffer", "commbuffer_driver.cpp", EXEC_SRC + MPI_SRC, defs=["NF_WITH_MPI_SUPPORT", "NF_DEBUG"], includes=SIM)
    T5 = {"char", "short", "int", "double", "Vector"}

    def go(name, n, topos, full, types, names, vals, ahead, acts, sample=None):
        c = dict(NRanks=n, Names=set(names), Types=set(types), Topos=topos, Full=full, Vals=set(vals), MaxAhead=ahead, Acts=set(acts), Dice={1, 2, 3, 4, 5} if sample else {1})
        args = [str(n), "full" if full else "half", json.dumps(topos)]
        if sample:
            sampled(ctx, name, "CommBuffer", c, sample[0], sample[1], ["TypeOK"], CB_P, exe, args)
        else:
            exhaustive(ctx, name, "CommBuffer", c, ["TypeOK"], CB_P, exe, args)
    one = [[[0, 1], [0, 0]]]
    go("half_one_way", 2, one, False, ["char", "int"], ["m"], [5], 1, {"resize"})
    go("full_swap", 2, [[[0, 1], [2, 0]]], True, ["int", "double"], ["m"], [5], 1, {})
    rng = ctx.rng
    for t in range(8 if ctx.thorough else 4):
        n = 2 + t % 2
        topos = [[[rng.choice([0, 1, 1, 2, 3, 7]) for _ in range(n)] for _ in range(n)] for _ in range(3)]
        ts = rng.sample(sorted(T5), 2)
        ns = [["a"], ["b", "a long name/with path.cpp:123"], ["x" * 60]][t % 3]
        go("half%d" % t, n, topos[:1 + t % 2], False, ts, ns, [1, 9, 40], 2, {"resize", "put"}, (60, 80))
        go("full%d" % t, n, topos[:1], True, ts[t % 2:], ns, [1, 9, 40], 2, {"put"}, (60, 80))


def C20(ctx):
    ints = ["char", "wchar_t", "short", "int", "long", "long long", "unsigned short", "unsigned", "unsigned long", "unsigned long long"]
    flts = ["float", "double", "long double", "complex<float>", "complex<double>", "complex<long double>"]
    ops = ["Max", "Min", "Sum", "Prod", "Land", "Band", "Lor", "Bor"]
    cases = [[t, o] for t in ints + flts + ["bool", "Vector"] for o in ops]
    lists = "{<<%s>>}" % ">>, <<".join(["3", "0, 1", "1, 1", "2, 5, 1", "-3, 4", "6, 3", "0, 0, 0", "1, 0, 1, 1", "-1, -2, -4", "5, 0, 7, 2, 1"])
    c = dict(Contribs=Raw(lists), Cases={Case(x) for x in map(tuple, cases)}, MsgTypes=set(ints + flts + ["bool"]),
             Msgs=Raw("{<<>>, <<1>>, <<1, 0, 1, 1, 0>>}"))
    for n, defs in (("debug", ["NF_DEBUG"]), ("release", [])):
        exe = kbuild(ctx, "allreduce_" + n, "allreduce_driver.cpp", ["src/core/primitives/vector.cpp"], defs=["NF_WITH_MPI_SUPPORT", *defs], includes=SIM)
        exhaustive(ctx, "typed_" + n, "AllReduce", c, [], ["Agree"], exe, [], maxlen=50, extra=0)


Case = tuple
