"""C05: binning of continuous columns is monotone, bounded and row-wise."""
import itertools
import math

import numpy as np

from wwmc import enc
from wwmc.common import require, impl

ASSUMPTIONS = ["values below 1e300 in absolute value, infinities not adjacent to each other, distinct values at least "
               "two doubles apart",
               "ndarrays of strings or objects: only values and thresholds exactly representable in float32 (known finding)"]
NAN = float("nan")
V = [-1.5, 0.0, 0.25, 1.0, 6.0, NAN]
FITC = ["f8", "df", "f8F", "f8s", "dfidx", "f4", "dff4", "i8", "u1", "ro", "obj", "str"]
TRC = ["f8", "df", "f4", "i8", "u1", "dfi4", "f8s", "ro", "obj", "str", "i2"]
Q = [-1e9, -2.0, -1.5, -1.0, -0.75, 0.0, 0.125, 0.25, 0.5, 0.625, 1.0, 2.0, 3.5, 5.0, 6.0, 7.0, 200.0, 1e30,
     float("inf"), -float("inf"), NAN, 0.1, -0.0, 5e-324, 1.0000000000000002, 0.9999999999999999]

# magnitudes and spacings of the values of a column (two doubles apart or more)
SCALES = [(2.0 ** 24, 1.0), (1.6e9, 1.0), (-4.0e9, 1.0), (2.0 ** 31 - 5.0, 1.0), (2.0 ** 32 - 3.0, 1.0),
          (2.0 ** 51, 1.0), (-2.0 ** 51, 1.0), (1.0, 2.0 ** -30), (-1.0, 2.0 ** -50), (100.0, 2.0 ** -40),
          (0.0, 1e-10), (0.0, 1e-30), (0.0, 1e-42), (0.0, 1e-200), (-1e-300, 1e-301), (0.0, 1e40), (-1e200, 1e198),
          (1e30, 1e20), (1e5, 1e-5)]


def setup(tier):
    enc.encoder()


def col(case):
    """Expands the compact description of a column."""
    k = case[0]
    if k == "m":
        return [V[i] for i in case[1]]
    shape, n = case[1:3]
    if shape == "off":
        base, step = case[3:]
        return [base + step * ((i * 5) % n) for i in range(n)] + [base + step * i for i in range(0, n, 2)]
    if shape == "lin":
        return [float(i) for i in range(n)]
    if shape == "rev":
        return [float(n - i) for i in range(n)]
    if shape == "sq":
        return [float(i * i) for i in range(n)]
    if shape == "mod":
        return [float((i * 7) % (n // 2 + 1)) for i in range(n)]
    if shape == "heavy":
        return [0.0] * (n // 2) + [float(i) for i in range(n - n // 2)]
    if shape == "tail":
        return [float(i) for i in range(n - n // 2)] + [float(n)] * (n // 2)
    if shape == "nan":
        return [NAN if i % 3 == 0 else float(i) / 8 for i in range(n)]
    if shape == "neg":
        return [-1.0 / (1 + i) for i in range(n)]
    if shape == "inf":
        return [float("inf") if i == 0 else float(i) for i in range(n)]
    if shape == "ninf":
        return [-float("inf") if i == 1 else float(i) for i in range(n)]
    raise KeyError(shape)


def cases(tier):
    th = tier == "thorough"
    L = 7 if th else 5
    for n in range(1, L + 1):
        for t in itertools.combinations_with_replacement(range(len(V)), n):
            if all(i == 5 for i in t):
                continue
            for mb in (3, 4, 5):
                for f in range(len(FITC)):
                    yield ["one", ["m", list(t)], mb, FITC[f]]
    for n in range(2, 5):
        for t in itertools.product(range(len(V)), repeat=n):
            if all(i == 5 for i in t):
                continue
            yield ["one", ["m", list(t)], 3, "df"]
            yield ["one", ["m", list(t)], 4, "f8"]
    for shape in ("lin", "rev", "sq", "mod", "heavy", "tail", "nan", "neg"):
        for n in list(range(2, 41 if th else 26)) + [64, 65, 100, 255, 256, 257, 300]:
            for mb in (3, 4, 5, 7, 8, 16, 255, 256, 257) if n < 60 else (3, 10, 64, 255, 256, 257):
                for f in ("f8", "df"):
                    yield ["one", ["g", shape, n], mb, f]
    for shape in ("inf", "ninf"):
        for n in range(3, 8):
            for f in ("f8", "df"):
                yield ["one", ["g", shape, n], 8, f]
    for base, step in SCALES:
        for n in (2, 3, 6, 11, 23, 41, 71) if th else (2, 6, 11, 41):
            for mb in (3, 6, 16, 64, 256):
                for f in ("f8", "df", "f8F", "dfidx") + (("i8",) if base == int(base) and step == int(step)
                                                         and abs(base) < 2.0 ** 53 else ()):
                    yield ["one", ["g", "off", n, base, step], mb, f]
    for (a, b), (c, d) in itertools.product(SCALES, repeat=2):
        for f in ("f8", "df"):
            yield ["multi", [["g", "off", 6, a, b], ["g", "off", 6, c, d]], 4, f]
    shapes = ["lin", "sq", "mod", "nan", "heavy"]
    for a, b in itertools.product(shapes, repeat=2):
        for n in (6, 13):
            for mb in (3, 5):
                for f in ("f8", "df", "f8F", "dfidx", "f4"):
                    yield ["multi", [["g", a, n], ["g", b, n]], mb, f]
    for perm in itertools.permutations(shapes, 3):
        yield ["multi", [["g", s, 9] for s in perm], 4, "df"]
        yield ["multi", [["g", s, 9] for s in perm], 4, "f8"]
    for n in (49999, 50000, 50001, 60001):
        for mb in (3, 64, 256):
            for f in ("f8", "df"):
                yield ["sub", n, mb, f]
    for base in (1.6e9, -2.0 ** 45):
        for n in (1100, 10001, 20000, 33000) + ((66000, 100000) if th else ()):
            for f in ("f8", "df"):
                yield ["sub", n, 64, f, base]
    for n, mb in ((200000, 256), (200001, 256)):
        yield ["sub", n, mb, "f8"]


def thresholds(e, j, ctx):
    t = getattr(e, "binning_thresholds_", None)
    if t is None or j not in t:
        ctx.add("no_thresholds")
        return None
    return [float(v) for v in np.asarray(t[j])]


def check_col(e, j, vals, q, bq, mb, nmiss, ctx, exact=True):
    """bq: bins of the queries q (q contains the fitted values)."""
    fin = sorted(v for v in vals if not math.isnan(v))
    u = sorted(set(fin))
    nb = min(mb, len(u))
    by = {}
    for v, b in zip(q, bq):
        b = int(b)
        if math.isnan(v):
            require(b == nmiss, "a missing value gets bin %d, the bin after the others is %d", b, nmiss)
            continue
        require(0 <= b < mb, "value %r gets bin %d with max_bins=%d", v, b, mb)
        require(by.setdefault(v, b) == b, "value %r gets two bins %d and %d", v, by[v], b)
    require(nmiss <= mb, "%d bins with max_bins=%d", nmiss, mb)
    order = sorted(by)
    for a, b in zip(order, order[1:]):
        require(by[a] <= by[b], "bin(%r)=%d > bin(%r)=%d", a, by[a], b, by[b])
        ctx.add("transitions")
    require(by[order[-1]] < nmiss, "value %r shares the bin of missing values", order[-1])
    T = thresholds(e, j, ctx)
    if T is not None:
        require(len(T) + 1 == nmiss, "%d thresholds but the missing bin is %d", len(T), nmiss)
        for v in order:
            r = sum(1 for t in T if t < v)
            require(by[v] == r, "value %r gets bin %d, the thresholds %s give %d", v, by[v], T[:20], r)
    if not exact:
        return
    if len(u) <= mb:
        require(nmiss == nb, "%d bins for %d distinct values", nmiss, nb)
        for r, v in enumerate(u):
            if v in by:
                require(by[v] == r, "value %r (rank %d of %d distinct ones) gets bin %d", v, r, len(u), by[v])
        for v in order:
            lo = sum(1 for w in u if w <= v) - 1
            require(max(lo, 0) <= by[v] <= min(lo + 1, len(u) - 1),
                    "new value %r is not put with its neighbours (bin %d)", v, by[v])
    else:
        n = len(fin)
        for k in range(1, nmiss):
            low = [v for v in fin if by[v] < k]
            strict = len(low) - (low.count(max(low)) if low else 0)
            require(len(low) >= k * n / nmiss - 1.001, "only %d of %d samples in the first %d of %d bins",
                    len(low), n, k, nmiss)
            require(strict <= k * n / nmiss + 1.001, "%d of %d samples in the first %d of %d bins",
                    strict, n, k, nmiss)
    ctx.state((len(u), nb, len(fin), tuple(by[v] for v in u[:12])))


def missing_bin(e, F, like):
    """The bin of a missing value, for every column."""
    X = enc.container("f8", [[NAN]] * F)
    B, _ = enc.bins(e, X)
    return B[0].tolist()


def check(case, ctx):
    if case[0] == "sub":
        return check_sub(case, ctx)
    kind, desc, mb, fc = case
    cols = [col(desc)] if kind == "one" else [col(d) for d in desc]
    F = len(cols)
    X = enc.container(fc, cols)
    if X is None:
        return
    e = enc.fit(enc.encoder(max_bins=mb, is_categorical=np.zeros(F, dtype=bool)), X)
    nm = missing_bin(e, F, X)
    qs = []
    for c in cols:
        mids = []
        for j in range(F):
            T = thresholds(e, j, ctx) or []
            mids += [v for t in T for v in (t, np.nextafter(t, 1e308), np.nextafter(t, -1e308))][:60]
        qs.append(Q + mids)
    m = max(len(q) for q in qs)
    qs = [(q + [0.0] * m)[:m] for q in qs]
    full = [list(c) + q for c, q in zip(cols, qs)]
    B, fb = enc.bins(e, enc.container("f8", full))
    for j in range(F):
        check_col(e, j, cols[j], full[j], B[:, j], mb, nm[j], ctx)
    # the container, dtype, other rows and order do not matter
    n = len(full[0])
    ref = B
    Bx, fbx = enc.bins(e, X)
    require(np.array_equal(Bx, ref[:len(cols[0])]), "the fitted matrix and the same values in another one differ")
    # missing values share max_values with the other bins: rows without any missing value
    ok_rows = [i for i in range(n) if not any(math.isnan(f[i]) for f in full)]
    for name in TRC if kind == "one" else ("df", "f4", "f8s"):
        for rows in ([i for i in range(n)], ok_rows, [i for i in ok_rows if all(
                abs(f[i]) < 30000 and f[i] == int(f[i]) for f in full)], [i for i in ok_rows if all(
                    f[i] == np.float32(f[i]) for f in full)]):
            if not rows:
                continue
            Y = enc.container(name, [[f[i] for i in rows] for f in full])
            if Y is None:
                continue
            Bn, _ = enc.bins(e, Y)
            bad = np.argwhere(Bn != ref[rows])
            require(bad.size == 0, "row %s transformed as %s gets bins %s instead of %s",
                    [f[rows[bad[0][0]]] for f in full] if bad.size else 0, name,
                    Bn[bad[0][0]].tolist() if bad.size else 0, ref[rows[bad[0][0]]].tolist() if bad.size else 0)
            ctx.add("traces")
    sub = list(range(n)) if len(cols[0]) <= 4 and kind == "one" else list(range(0, n, 9))
    for i in sub if fc in ("f8", "df") else ():
        for name in ("f8",) if i % 2 else ("df",):
            Bi, _ = enc.bins(e, enc.container(name, [[f[i]] for f in full]))
            require(Bi[0].tolist() == ref[i].tolist(), "row %s alone gets bins %s instead of %s",
                    [f[i] for f in full], Bi[0].tolist(), ref[i].tolist())
            ctx.add("traces")
    if fc in ("f8", "df") and n < 120:
        with impl("inverse_transform"):
            D = e.inverse_transform(fb)
        require(D.shape == (n, F), "inverse_transform has shape %s", D.shape)
        for j in range(F):
            for x, iv in zip(full[j], D.iloc[:, j].tolist()):
                if math.isnan(x):
                    require(isinstance(iv, float) and math.isnan(iv), "inverse_transform of a missing value is %s", iv)
                elif hasattr(iv, "left"):
                    require(iv.left < x <= iv.right or x == -math.inf, "inverse_transform of %r is %s", x, iv)
    # refitting on a permutation of the rows gives the same encoding
    if len(cols[0]) > 1 and fc in ("f8", "df"):
        for p in ([list(reversed(c)) for c in cols], [c[1:] + c[:1] for c in cols]):
            e2 = enc.fit(enc.encoder(max_bins=mb, is_categorical=[False] * F), enc.container(fc, p))
            B2, _ = enc.bins(e2, enc.container("f8", full))
            require(np.array_equal(B2, ref), "the order of the fitted rows changes the bins")
    ctx.add("traces")


def check_sub(case, ctx):
    n, mb, fc = case[1:4]
    base = case[4] if len(case) > 4 else 0.0
    c = [base + float((i * 7919) % n) for i in range(n)]
    X = enc.container(fc, [c])
    sub = 50000 if n < 100000 else 200000
    outs = []
    q = [float(v) for v in np.linspace(base - 5, base + n + 5, 997)]
    for rep in range(2):
        e = enc.fit(enc.encoder(max_bins=mb, is_categorical=[False], subsample=sub, random_state=3), X)
        nm = missing_bin(e, 1, X)
        B, _ = enc.bins(e, enc.container("f8", [q]))
        check_col(e, 0, [0.0], q, B[:, 0], mb, nm[0], ctx, exact=False)
        require(nm[0] == mb, "%d bins instead of %d", nm[0], mb)
        Bx, _ = enc.bins(e, X)
        cnt = np.bincount(Bx[:, 0], minlength=mb)
        slack = 2 if n <= sub else 0.05 * n / mb + 6 * math.sqrt(n / mb) + 0.3 * math.sqrt(n)
        require(np.all(np.abs(cnt - n / mb) <= slack), "populations %s of the bins are not balanced", cnt.tolist()[:20])
        outs.append(B)
        ctx.add("traces")
    require(np.array_equal(outs[0], outs[1]), "two fits with the same random_state differ")
    ctx.state((n, mb))
