"""Checks of meshes, linear systems, finite-volume operators, the DSL and time integration."""
from vlib import *
from checks_core import exhaustive, sampled
from checks_kokkos import kbuild, model, EXEC_SRC, X3
import meshes as msh

MESH_SRC = EXEC_SRC + ["src/mesh/unstructured/boundaryMesh.cpp", "src/mesh/unstructured/unstructuredMesh.cpp",
                       "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"]
GEO_SRC = MESH_SRC + CORE_SRC + ["src/finiteVolume/cellCentred/boundary/boundary.cpp"] + ["src/finiteVolume/cellCentred/stencil/%s.cpp" % s for s in ("basicGeometryScheme", "geometryScheme", "cellToFaceStencil")] + \
    ["src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"]
SCHEDS = set(range(40))


def skew(rng, k, size=12):
    return [msh.tree(rng, rng.randint(2, size), extra=rng.randint(0, 4), nb=rng.randint(1, 9)) for _ in range(k)]


def boxes(rng, k, most=3):
    return [msh.box(rng, [rng.randint(1, most) for _ in range(3)]) for _ in range(k)]


def star(n):
    """One cell with n neighbours."""
    m = msh.line(2)
    return msh.finish(dict(nC=n + 1, own=[0 if i % 3 else i + 1 for i in range(n)], nei=[i + 1 if i % 3 else 0 for i in range(n)],
                           bc=[n], off=[0, 0, 1], V=[1] * (n + 1), sf=[[1 if i % 3 else -1, 0, 0] for i in range(n)] + [[1, 0, 0]],
                           C=[[0, 0, 0]] + [[2, 0, 0]] * n, cf=[[1, 0, 0]] * n + [[3, 0, 0]], bd=[1]))


def sound(ctx, name, ms):
    """TLC checks what the specifications assume of the generated meshes."""
    shut = {i + 1 for i, m in enumerate(ms) if m.get("closed")}
    model(ctx, "meshes_" + name, "MeshCheck", dict(Meshes=records(ms), MustClose=shut), ["Sound"])


def records(ms):
    return [{k: v for k, v in m.items() if k != "closed"} for m in ms]


def C21(ctx):
    exe = kbuild(ctx, "mesh", "mesh_driver.cpp", MESH_SRC, defs=["FACTORIES_ONLY"])
    ms = boxes(ctx.rng, 4) + skew(ctx.rng, 4) + [msh.line(3)]
    sound(ctx, "all", ms)
    c = dict(Meshes=records(ms), Sizes=set(range(1, 13)), Execs=X3, Scheds={1, 10}, Acts={"factory"})
    inv = ["FactoriesSound"]
    exhaustive(ctx, "small", "Mesh", c, inv, [], exe, [json.dumps(ms)], maxlen=60, extra=0)
    c = dict(c, Sizes=set(range(1, 40)) | {64, 100, 127}, Scheds=SCHEDS)
    sampled(ctx, "large", "Mesh", c, 32, 20, inv, [], exe, [json.dumps(ms)])


def C22(ctx):
    exe = kbuild(ctx, "topology", "mesh_driver.cpp", GEO_SRC)
    ms = boxes(ctx.rng, 6) + skew(ctx.rng, 10, 20) + [msh.line(1), msh.line(2), msh.line(9), star(40), star(240)]
    few = ms[:12] + ms[16:19]
    sound(ctx, "all", ms)
    c = dict(Meshes=records(ms), Sizes=set(), Execs=X3, Scheds={1, 10}, Acts={"stencil", "sparsity"})
    inv = ["FacesCounted", "RowsFilled"]
    exhaustive(ctx, "small", "Mesh", dict(c, Meshes=records(few)), inv, [], exe, [json.dumps(few)], maxlen=60, extra=0)
    sampled(ctx, "large", "Mesh", dict(c, Scheds=SCHEDS), 48, 30, inv, [], exe, [json.dumps(ms)])


def C23(ctx):
    exe = kbuild(ctx, "geometry", "mesh_driver.cpp", GEO_SRC)
    ms = boxes(ctx.rng, 6) + skew(ctx.rng, 24, 20) + [msh.line(1), msh.line(2), msh.line(9)]
    sound(ctx, "small", ms)
    c = dict(Meshes=records(ms), Sizes=set(), Execs=X3, Scheds={1, 10}, Acts={"geometry"})
    inv = ["WeightsBetween", "Bounded"]
    exhaustive(ctx, "small", "Mesh", c, inv, [], exe, [json.dumps(ms)], maxlen=60, extra=0)
    ms = skew(ctx.rng, 60, 30)
    sound(ctx, "large", ms)
    sampled(ctx, "large", "Mesh", dict(c, Meshes=records(ms), Scheds=SCHEDS), 48, 20, inv, [], exe, [json.dumps(ms)])


def patterns(rng, k, most=6):
    out = []
    for _ in range(k):
        n = rng.randint(1, most)
        out.append([sorted(rng.sample(range(n), rng.randint(0, n))) for _ in range(n)])
    return out


def C24(ctx):
    P = ["Local", "OneEntry", "ZeroAfterReset"]
    I = ["TypeOK", "PatternsSorted"]
    pats = patterns(ctx.rng, 12) + [[[0]], [[0, 1], [0, 1]], [[], [0, 2], [2]]]
    raw = lambda ps: Raw("{%s}" % ", ".join(tla(p) for p in ps + [[]]))
    for n, defs in (("scalar", ["ELEM=nf::scalar", "SPMV"]), ("Vector", ["ELEM=nf::Vector"]), ("int", ["ELEM=nf::scalar", "INDEX=int", "SPMV"])):
        exe = kbuild(ctx, "linsys_" + n, "linsys_driver.cpp", EXEC_SRC, defs=defs)
        acts = {"odd"} | ({"spmv"} if "SPMV" in defs else set())
        if n == "scalar":
            c = dict(Handles={"a"}, Execs={"serial", "gpu"}, Patterns=raw([[[0, 1], [1]]]), Vals={0, 1}, Scheds={1}, Acts={"spmv"}, Limit=1)
            exhaustive(ctx, "small", "LinearSystem", c, I, P, exe, ["a"])
            c = dict(c, Handles={"a", "b"}, Vals={1}, Limit=1, Execs={"gpu"}, Patterns=raw([[[0]]]))
            exhaustive(ctx, "two", "LinearSystem", c, I, P, exe, ["a", "b"])
        c = dict(Handles={"a", "b", "c"}, Execs=X3, Patterns=raw(pats), Vals={-3, -1, 0, 1, 2, 5}, Scheds=SCHEDS, Acts=acts, Limit=1000)
        sampled(ctx, "large_" + n, "LinearSystem", c, 100, 60, I, P, exe, ["a", "b", "c"])


FIELD_SRC = MESH_SRC + CORE_SRC + ["src/finiteVolume/cellCentred/boundary/boundary.cpp"]


def C25(ctx):
    P, I = ["Local", "CellsStay", "Idempotent", "Kept"], ["TypeOK"]
    few = [msh.line(2)]
    ms = boxes(ctx.rng, 5) + skew(ctx.rng, 6) + [msh.line(4)]
    for n, t in (("scalar", "nf::scalar"), ("Vector", "nf::Vector")):
        exe = kbuild(ctx, "bc_" + n, "boundary_driver.cpp", FIELD_SRC, defs=["ELEM=" + t])
        if n == "scalar":
            c = dict(Handles={"a"}, Meshes=records(few), Execs={"gpu"}, Types=set(), Vals={0, 1, 2}, Scheds={1}, Acts={"query", "bad"})
            exhaustive(ctx, "small", "Boundary", c, I, P, exe, [json.dumps(few), "a"])
            c = dict(c, Handles={"a", "b"}, Vals={0, 3}, Execs={"serial"}, Acts=set())
            sampled(ctx, "two", "Boundary", c, 100, 40, I, P, exe, [json.dumps(few), "a", "b"])
        c = dict(Handles={"a", "b", "c"}, Meshes=records(ms), Execs=X3, Types=set(), Vals=set(range(-2, 9)), Scheds=SCHEDS, Acts={"query", "bad", "write"})
        sampled(ctx, "large_" + n, "Boundary", c, 160, 50, I, P, exe, [json.dumps(ms), "a", "b", "c"])


OPS_SRC = sorted({*GEO_SRC, *["src/finiteVolume/cellCentred/" + f for f in (
    "interpolation/linear.cpp", "interpolation/upwind.cpp", "faceNormalGradient/uncorrected.cpp", "operators/gaussGreenDiv.cpp",
    "operators/gaussGreenGrad.cpp", "operators/gaussGreenLaplacian.cpp", "operators/ddtOperator.cpp", "operators/sourceTerm.cpp",
    "operators/surfaceIntegrate.cpp", "auxiliary/coNum.cpp")], "src/dsl/coeff.cpp"})
FV_P = ["Conserves", "Consistent", "RowSums", "Symmetric", "Between", "FlatGradient", "TypeOK"]


def gentle(rng, k, size=6):
    """Skewed meshes whose coefficients have small denominators."""
    out = []
    while len(out) < k:
        m = msh.tree(rng, rng.randint(2, size), extra=rng.randint(0, 3), nb=rng.randint(1, 6), most=3, maxd=60)
        if m["dw"] * m["dn"] <= 300:
            out.append(m)
    return out


def fv(ctx, name, acts, few=(2, 3)):
    few = [msh.line(n) for n in few]
    types = (("scalar", "nf::scalar"), ("Vector", "nf::Vector"))
    exe = {n: later(ctx, kbuild, "%s_%s" % (name, n), "fvops_driver.cpp", OPS_SRC, defs=["ELEM=" + t] + ["SCALAR"] * (n == "scalar"))
           for n, t in types}
    ms = [m for m in boxes(ctx.rng, 40) if 1 < m["nC"] <= 8 and max(m["V"]) <= 72][:6] + gentle(ctx.rng, 8) + [msh.line(4), msh.line(1)]
    sound(ctx, name, ms)
    for n, t in types:
        A = acts | ({"grad"} if n == "scalar" and "schemes" in acts else set())
        if n == "scalar":
            c = dict(Meshes=records(few), Execs={"gpu"}, Vals={1}, Scheds={1}, Acts=A, Limit=1)
            exhaustive(ctx, "small", "FiniteVolume", c, FV_P, [], exe[n], [json.dumps(few)])
        c = dict(Meshes=records(ms), Execs=X3, Vals=set(range(0, 12)), Scheds=SCHEDS, Acts=A, Limit=4)
        sampled(ctx, "large_" + n, "FiniteVolume", c, 160, 40, FV_P, [], exe[n], [json.dumps(ms)])


def C26(ctx):
    fv(ctx, "schemes", {"schemes", "calculated"})


def C27(ctx):
    fv(ctx, "explicit", {"explicit", "calculated"}, (2, 3) if ctx.thorough else (2,))


def C28(ctx):
    fv(ctx, "implicit", {"explicit", "implicit"}, (2, 3) if ctx.thorough else (2,))


DSL_SRC = EXEC_SRC + ["src/dsl/coeff.cpp", "src/dsl/spatialOperator.cpp", "src/dsl/temporalOperator.cpp"]
DSL_P = ["Linear", "Local"]


def C29(ctx):
    types = (("scalar", "nf::scalar"), ("Vector", "nf::Vector"))
    exe = {n: later(ctx, kbuild, "dsl_" + n, "dsl_driver.cpp", DSL_SRC, defs=["ELEM=" + t]) for n, t in types}
    base = dict(Handles={"p", "q"}, Execs={"gpu"}, Size=2, Vals={1}, Nums={-1}, Bound=1, Terms=2, Scheds={1}, Xs={"x1", "x2"}, Cs={"c1"})
    mixed = Raw('{<<"spatial", "Explicit", "x1">>, <<"temporal", "Implicit", "x2">>}')
    exhaustive(ctx, "sums", "Dsl", dict(base, Atoms=mixed, Acts={"sums"}), ["TypeOK"], DSL_P, exe["scalar"], ["p", "q"], maxlen=200)
    if ctx.thorough:
        other = Raw('{<<"spatial", "Explicit", "x1">>, <<"spatial", "Implicit", "x1">>}')
        exhaustive(ctx, "types", "Dsl", dict(base, Atoms=other, Acts={"sums"}), ["TypeOK"], DSL_P, exe["scalar"], ["p", "q"], maxlen=200)
    exhaustive(ctx, "products", "Dsl", dict(base, Atoms=Raw('{<<"temporal", "Implicit", "x1">>}'), Xs={"x1"}, Acts={"fields"}, Nums={2}, Bound=2), ["TypeOK"], DSL_P, exe["scalar"], ["p", "q"], maxlen=200)
    big = dict(Handles={"p", "q", "r", "u"}, Execs=X3, Xs={"x1", "x2"}, Cs={"c1", "c2"}, Size=5, Vals=set(range(8)), Nums={-2, -1, 0, 1, 3}, Bound=60, Terms=9, Scheds=SCHEDS,
               Atoms=Raw("Kinds \\X Types \\X Xs"), Acts={"sums", "fields", "copies", "build"})
    for n, _ in types:
        sampled(ctx, "large_" + n, "Dsl", big, 200, 60, ["TypeOK"], DSL_P, exe[n], ["p", "q", "r", "u"])


SOLVE_SRC = sorted({*OPS_SRC, *DSL_SRC, "src/dsl/explicit.cpp", "src/timeIntegration/timeIntegration.cpp", "src/linearAlgebra/utilities.cpp"})


ALL_MODES = {"forward", "forward2", "backward", "steady"}


def C30(ctx):
    exe = later(ctx, kbuild, "timeint", "timeint_driver.cpp", SOLVE_SRC)
    few = [msh.line(2)]
    ms = [m for m in boxes(ctx.rng, 40) if 1 < m["nC"] <= 8 and max(m["V"]) <= 72][:5] + gentle(ctx.rng, 6) + [msh.line(4), msh.line(1)]
    sound(ctx, "solve", ms)
    inv, props = ["TypeOK", "AfterStep", "FixedPoint"], ["StepsOnlyV", "OldInTime"]
    c = dict(Meshes=records(few), Execs={"gpu"}, Vals={1}, Scheds={1}, Acts=set(), Limit=3 if ctx.thorough else 2, Steps=1, Nums={-1}, Dts=Raw("{<<1, 2>>, <<2, 1>>}"), Modes=ALL_MODES)
    exhaustive(ctx, "small", "TimeIntegration", c, inv, props, exe, [json.dumps(few)], maxlen=200)
    c = dict(Meshes=records(ms), Execs=X3, Vals=set(range(0, 12)), Scheds=SCHEDS, Acts={"set"}, Limit=5, Steps=6, Nums={-2, -1, 1, 3}, Dts=Raw("{<<1, 2>>, <<1, 1>>, <<2, 1>>, <<16, 1>>}"), Modes=ALL_MODES)
    sampled(ctx, "large", "TimeIntegration", c, 320, 40, inv, props, exe, [json.dumps(ms)])


def C31(ctx):
    types = (("scalar", "nf::scalar"), ("Vector", "nf::Vector"))
    src = FIELD_SRC + ["src/core/database/oldTimeCollection.cpp", "src/core/database/fieldCollection.cpp"]
    exe = {n: later(ctx, kbuild, "history_" + n, "history_driver.cpp", src, defs=["ELEM=" + t]) for n, t in types}
    few, ms = [msh.line(2)], boxes(ctx.rng, 3) + skew(ctx.rng, 4) + [msh.line(1)]
    inv, props = ["TypeOK", "OneOld", "Chains", "SameCollection", "Keys"], ["Reads", "Frozen"]
    a, b, other = '<<1, "a">>', '<<1, "b">>', '<<2, "a">>'
    acts = {"share", "again", "amend", "copy", "loose", "find", "bad", "forget"}
    c = dict(Meshes=records(few), Execs={"gpu"}, Slots={"p"}, Names={"u"}, Vals={1}, Times={1}, Scheds={1})
    exhaustive(ctx, "chains", "FieldHistory", dict(c, Cols=Raw("{%s}" % a), Vals={1, 2} if ctx.thorough else {1}, Acts={"forget"}, Limit=3), inv, props, exe["scalar"], [json.dumps(few)], maxlen=200)
    exhaustive(ctx, "collections", "FieldHistory", dict(c, Cols=Raw("{%s, %s}" % (a, b)), Acts={"share", "copy", "again"}, Limit=3 if ctx.thorough else 2), inv, props, exe["scalar"], [json.dumps(few)], maxlen=200)
    big = dict(Meshes=records(ms), Execs=X3, Cols=Raw("{%s, %s, %s}" % (a, b, other)), Slots={"p", "q"}, Names={"u", "p", "T"}, Vals=set(range(6)), Times={-2, 0, 1, 2, 7}, Scheds=SCHEDS, Acts=acts, Limit=12)
    for n, _ in types:
        sampled(ctx, "large_" + n, "FieldHistory", big, 200, 60, inv, props, exe[n], [json.dumps(ms)])


def C32(ctx):
    src = sorted({*SOLVE_SRC, "src/timeIntegration/rungeKutta.cpp"})
    exe = later(ctx, kbuild, "rungekutta", "timeint_driver.cpp", src, defs=["RUNGE_KUTTA"], includes=[os.path.join(VERIF, "stub", "sundials")])
    few = [msh.line(2)]
    ms = [m for m in boxes(ctx.rng, 40) if 1 < m["nC"] <= 8 and max(m["V"]) <= 72][:4] + gentle(ctx.rng, 6) + [msh.line(4), msh.line(1)]
    sound(ctx, "steps", ms)
    inv, props = ["TypeOK", "AfterStep"], ["StepsOnlyV", "OldInTime"]
    modes = {"forward", "forward2"}
    c = dict(Meshes=records(few), Execs={"gpu"}, Vals={1}, Scheds={1}, Acts={"stages"}, Limit=2, Steps=1, Nums={-1}, Dts=Raw("{<<1, 2>>, <<2, 1>>}"), Modes=modes)
    exhaustive(ctx, "small", "TimeIntegration", c, inv, props, exe, [json.dumps(few)], maxlen=200)
    c = dict(Meshes=records(ms), Execs=X3, Vals=set(range(0, 12)), Scheds=SCHEDS, Acts={"set", "stages"}, Limit=5, Steps=8, Nums={-2, -1, 1, 3}, Dts=Raw("{<<1, 2>>, <<1, 1>>, <<2, 1>>, <<16, 1>>}"), Modes=modes)
    sampled(ctx, "large", "TimeIntegration", c, 320, 40, inv, props, exe, [json.dumps(ms)])
