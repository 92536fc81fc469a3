"""Mesh records for the finite-volume specifications (MeshBase.tla): integers only."""
from math import gcd, isqrt


def lcm(*xs):
    r = 1
    for x in xs:
        r = r * x // gcd(r, x)
    return r


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def weight(m, f):
    if f >= len(m["nei"]):
        return (1, 1)
    o = abs(dot(m["sf"][f], sub(m["cf"][f], m["C"][m["own"][f]])))
    n = abs(dot(m["sf"][f], sub(m["C"][m["nei"][f]], m["cf"][f])))
    return (1, 2) if o + n == 0 else (n, o + n)


def delta(m, f):
    ni = len(m["nei"])
    far = m["C"][m["nei"][f]] if f < ni else m["cf"][f]
    own = m["own"][f] if f < ni else m["bc"][f - ni]
    return sub(far, m["C"][own])


def norm(a):
    r = isqrt(dot(a, a))
    assert r * r == dot(a, a), a
    return r


def nonorth(m, f):
    d = delta(m, f)
    n, den = 20 * m["mag"][f], max(20 * dot(m["sf"][f], d), m["mag"][f] * norm(d))
    g = gcd(n, den)
    return n // g, den // g


def finish(m):
    nf = len(m["sf"])
    m["mag"] = [norm(s) for s in m["sf"]]
    m["dl"] = [norm(delta(m, f)) for f in range(nf)]
    m["dw"] = lcm(*[weight(m, f)[1] for f in range(nf)])
    m["dn"] = lcm(*[nonorth(m, f)[1] for f in range(nf)])
    return m


def patches(rng, faces, n):
    """Boundary faces (any order) in n contiguous patches, some possibly empty."""
    rng.shuffle(faces)
    cuts = sorted(rng.randrange(len(faces) + 1) for _ in range(n - 1))
    return faces, [0, *cuts, len(faces)]


def box(rng, shape, npatches=None, shuffle=True):
    """Graded box of shape[0] x shape[1] x shape[2] cells with half-widths 1 or 3, faces and cells in any order,
    owner and neighbour either way round."""
    half = [[rng.choice([1, 3]) for _ in range(n)] for n in shape]
    pos = []
    for h in half:
        c, x = [], 0
        for a in h:
            c.append(x + a)
            x += 2 * a
        pos.append(c)
    cells = [(i, j, k) for i in range(shape[0]) for j in range(shape[1]) for k in range(shape[2])]
    perm = list(range(len(cells)))
    if shuffle:
        rng.shuffle(perm)
    num = {c: perm[i] for i, c in enumerate(cells)}
    C, V = [None] * len(cells), [None] * len(cells)
    for c in cells:
        C[num[c]] = [pos[a][c[a]] for a in range(3)]
        V[num[c]] = 8 * half[0][c[0]] * half[1][c[1]] * half[2][c[2]]
    inner, outer = [], []
    for c in cells:
        for a in range(3):
            area = 4
            for b in range(3):
                if b != a:
                    area *= half[b][c[b]]
            h = half[a][c[a]]
            ctr = list(C[num[c]])
            for side in (-1, 1):
                n = list(c)
                n[a] += side
                p = list(ctr)
                p[a] += side * h
                s = [0, 0, 0]
                s[a] = side * area
                if 0 <= n[a] < shape[a]:
                    if side == 1:
                        o, e = num[c], num[tuple(n)]
                        if shuffle and rng.random() < 0.5:
                            o, e, s = e, o, [-x for x in s]
                        inner.append((o, e, s, p))
                else:
                    outer.append((num[c], s, p, h))
    if shuffle:
        rng.shuffle(inner)
    outer, off = patches(rng, outer, npatches or rng.randint(1, 4))
    return finish(dict(closed=True, nC=len(cells), own=[f[0] for f in inner], nei=[f[1] for f in inner], bc=[f[0] for f in outer],
                       off=off, V=V, sf=[f[2] for f in inner] + [f[1] for f in outer], C=C,
                       cf=[f[3] for f in inner] + [f[2] for f in outer], bd=[f[3] for f in outer]))


TRIPLES = [(1, 0, 0), (2, 0, 0), (1, 2, 2), (0, 3, 4), (2, 4, 4), (2, 3, 6), (4, 0, 3), (1, 4, 8), (3, 0, 0), (4, 4, 2)]


def triple(rng, most=9):
    t = list(rng.choice([x for x in TRIPLES if norm(x) <= most]))
    rng.shuffle(t)
    return [x * rng.choice([-1, 1]) for x in t]


def tree(rng, n, extra=2, nb=4, npatches=None, most=9, maxd=6000):
    """Cells joined along a random tree with skew faces and arbitrary centres; `extra` faces repeat a pair of cells.
    Not a closed mesh: for what must hold face by face."""
    while True:
        C, pairs = [[0, 0, 0]], []
        for c in range(1, n):
            o = rng.randrange(c)
            d = triple(rng, most)
            C.append([a + b for a, b in zip(C[o], d)])
            pairs.append((o, c))
        pairs += [rng.choice(pairs) for _ in range(extra)] if pairs else []
        pairs = [p if rng.random() < 0.5 else p[::-1] for p in pairs]
        rng.shuffle(pairs)
        sf, cf = [], []
        for o, e in pairs:
            d = sub(C[e], C[o])
            s = triple(rng, 3)
            if dot(s, d) < 0 and rng.random() < 0.7:
                s = [-x for x in s]
            sf.append(s)
            cf.append([C[o][i] + rng.choice([0, d[i], d[i] // 2]) for i in range(3)])
        outer = []
        for _ in range(nb):
            o, d = rng.randrange(n), triple(rng, 6)
            s = triple(rng, 3)
            if dot(s, d) < 0 and rng.random() < 0.7:
                s = [-x for x in s]
            outer.append((o, s, [a + b for a, b in zip(C[o], d)], rng.choice([1, 2, 4, 5])))
        outer, off = patches(rng, outer, npatches or rng.randint(1, 4))
        m = finish(dict(nC=n, own=[p[0] for p in pairs], nei=[p[1] for p in pairs], bc=[f[0] for f in outer], off=off,
                        V=[rng.choice([1, 2, 3, 4, 8]) for _ in range(n)], sf=sf + [f[1] for f in outer], C=C,
                        cf=cf + [f[2] for f in outer], bd=[f[3] for f in outer]))
        if m["dw"] <= 60 and m["dn"] <= maxd:
            return m


def line(n):
    """The mesh of create1DUniformMesh(n), lengths in units of 1/(2 n)."""
    return finish(dict(closed=True, nC=n, own=list(range(n - 1)), nei=list(range(1, n)), bc=[0, n - 1], off=[0, 1, 2], V=[1] * n,
                       sf=[[1, 0, 0]] * (n - 1) + [[-1, 0, 0], [1, 0, 0]], C=[[2 * i + 1, 0, 0] for i in range(n)],
                       cf=[[2 * i + 2, 0, 0] for i in range(n - 1)] + [[0, 0, 0], [2 * n, 0, 0]], bd=[1, 1]))
