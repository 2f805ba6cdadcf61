"""C19: trees of any size and depth are stored faithfully."""
import copy
import pickle

import numpy as np

from wwmc import seam, treecheck as T, model as M, forestcheck
from wwmc.common import SeamError, require, impl

ASSUMPTIONS = ["internal capacities are taken to be at most a factor two apart: sizes 2^k - 3 .. 2^k + 3 and every size "
               "up to 40 are explored, plus the neighbourhoods of the known capacities (10 * 2^k, 2047 * 2^k, 256 * 2^k)"]
BUDGET = {"quick": 420, "thorough": 5400}


def setup(tier):
    try:
        seam._probe()
    except SeamError:
        pass


def around(*xs, r=1):
    return sorted(set(v for x in xs for v in range(x - r, x + r + 1) if v > 0))


def cases(tier):
    th = tier == "thorough"
    shapes = ["lin", "left", "right", "zig", "exp"]
    small = range(1, 65) if th else [*range(1, 20), *range(20, 41, 3)]
    # the biggest trees first
    big = around(1024, 2047, 2048) + ([4094, 4095, 4096, 8190] if th else [])
    for L in big:
        for kind in ("clf", "reg"):
            for shape in (shapes[:3] if th or L == 1024 else ["lin"]):
                if shape != "lin" and L > 2100:
                    continue
                for cat in (False, True):
                    if cat and shape != "lin":
                        continue
                    for agg in ((False, True) if L <= 2048 else (False,)):
                        yield ["tree", kind, 2, shape, L, cat, agg]
    for L in around(80, 160, 320, 640, r=2 if th else 1):
        for kind in ("clf", "reg"):
            for shape in ("left", "right"):
                for agg in (False, True):
                    yield ["tree", kind, 2, shape, L, False, agg]
    for L in around(127, 128, 255, 256, 257, 300, 341, 342, 400, 511, 512, 513, 683, 1000, r=1 if th else 0):
        for kind in ("clf", "reg"):
            for agg in (False, True):
                yield ["tree", kind, 2, "lin", L, True, agg]
                yield ["tree", kind, 2, "zig", L, True, agg]
                yield ["two", kind, L, agg]
    for L in small:
        for kind in ("clf", "reg"):
            for shape in shapes:
                for cat in (False, True):
                    for agg in (False, True):
                        yield ["tree", kind, 2, shape, L, cat, agg]
    for K in (3, 5, 17, 64):
        for L in (5, 12, 33, 1030):
            for cat in (False, True):
                for agg in (False, True):
                    yield ["tree", "clf", K, "lin", L, cat, agg]
    for n in (500, 3000) + ((12000,) if th else ()):
        for kind in ("clf", "reg", "ovr"):
            for cat in (False, True):
                for agg in (False, True):
                    for mb in (255, 40, 1200):
                        yield ["forest", kind, n, cat, agg, mb]


def dataset(kind, K, shape, L):
    w = [1.0] * L
    if kind == "clf":
        y = [i % K for i in range(L)]
        if shape == "left":
            w = [1 + 0.5 * i / L for i in range(L)]
        elif shape == "right":
            w = [1.5 - 0.5 * i / L for i in range(L)]
        elif shape == "zig":
            y = [(i * i // 3 + i // 2) % K for i in range(L)]
        elif shape == "exp":
            w = [2.0 ** (-(i % 20)) for i in range(L)]
        elif shape == "lin":
            y = [(i // 2 + i) % K for i in range(L)]
    else:
        y = [float(i) for i in range(L)]
        if shape in ("left", "right"):
            y = [float(i % 2) for i in range(L)]
            w = [1 + 0.5 * (i if shape == "left" else L - i) / L for i in range(L)]
        elif shape == "zig":
            y = [float((i * 7) % L) for i in range(L)]
        elif shape == "exp":
            y = [2.0 ** (i % 12) for i in range(L)]
    w = [float(np.float32(v)) for v in w]
    return y, w


def full_check(g, ctx, cat, agg, rows, fb, strict):
    T.check_partition(g, ctx, rows=rows, fb=fb)
    T.check_node_predictions(g, ctx, rows=rows, fb=fb)
    if agg:
        T.check_aggregation(g, ctx, rows=rows, fb=fb)
    top = mx = 1
    for v in range(g.N.n):
        top += 1 if not g.N.is_leaf[v] else -1
        mx = max(mx, top)
    ctx.add("nodes", g.N.n)
    if g.N.n > 2047:
        ctx.add("trees_over_2047_nodes")
    if mx > 10:
        ctx.add("trees_over_10_pending_nodes")


def tree(case, ctx):
    _, kind, K, shape, L, cat, agg = case
    y, w = dataset(kind, K, shape, L)
    perm = [(i * 5) % L for i in range(L)] if cat and L % 5 else list(range(L))
    X = [[p] for p in perm]
    va = 2 if agg else 1
    c = dict(kind=kind, ncls=K, cat=[cat], X=X * (1 + va), y=y * (1 + va), w=w * (1 + va), tr=list(range(L)),
             va=list(range(L, L * (1 + va))), cfg=dict(aggregation=agg, dirichlet=0.5), exact=set(w) == {1.0})
    if not agg:
        c["X"], c["y"], c["w"] = c["X"][:L + 1], c["y"][:L + 1], c["w"][:L + 1]
        c["va"] = [L]
    g = T.Grown(c)
    rows = [[b] for b in range(L)]
    if L <= 40:
        rows += [[L], [L + 1]]
    fb = seam.bitarray(rows)
    full_check(g, ctx, cat, agg, rows, fb, True)
    if L <= 24:
        if kind == "clf":
            c["cfg"]["criterion"] = "gini"
        T.check_splits(g, ctx)
    # without aggregation every node stops only when pure: one leaf per run of equal labels at least
    if not agg and not cat and kind == "clf" and K == 2:
        runs = 1 + sum(1 for i in range(1, L) if y[i] != y[i - 1])
        leaves = sum(1 for v in g.N.is_leaf if v)
        require(leaves == runs or runs == 1, "%d leaves for %d runs of equal labels", leaves, runs)
    ctx.state((kind, K, shape, L, cat, agg))
    ctx.add("traces")


def two(case, ctx):
    """Two categorical features of L categories and a continuous one: many stored subsets of many sizes."""
    _, kind, L, agg = case
    n = 2 * L
    X = [[i % L, (i * 7 + i // L) % L, (i * 3) % 11] for i in range(n)]
    y = [(i * i // 5 + i // 3) % 2 if kind == "clf" else float((i * 13) % 29) for i in range(n)]
    va = [i for i in range(n) if i % 2 == 1] if agg else [1]
    vs = set(va)
    tr = [i for i in range(n) if i not in vs]
    c = dict(kind=kind, ncls=2, cat=[True, True, False], X=X, y=y, w=[1.0] * n, tr=tr, va=va,
             cfg=dict(aggregation=agg, dirichlet=0.5))
    g = T.Grown(c)
    rows = X[:400] + [[a, (a * 5) % L, a % 12] for a in range(L)]
    full_check(g, ctx, True, agg, rows, seam.bitarray(rows), False)
    ctx.state((kind, L, agg))
    ctx.add("traces")


def forest(case, ctx):
    _, kind, n, cat, agg, mb = case
    k = "reg" if kind == "reg" else "clf"
    cats = [cat, False]
    X = np.array([[float((i * 7919) % n % (mb - 2 if cat else n)), float((i * 104729) % 997)] for i in range(n)])
    y = [(i * i // 7 + i // 3) % (3 if kind == "ovr" else 2) if k == "clf" else float((i * 37) % 101) for i in range(n)]
    kw = dict(n_estimators=1, random_state=n % 11, aggregation=agg, max_bins=mb, max_features=None, categorical_features=cats)
    if kind == "ovr":
        kw["multiclass"] = "ovr"
    f = forestcheck.fit_forest(k, X, np.array(y), None, **kw)
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder")
    Q = X[: min(n, 600)]
    with impl("transform"):
        Xb = seam.bitarray_to_array(enc.transform(X)).tolist()
        fbq = enc.transform(Q)
    rows = seam.bitarray_to_array(fbq).tolist()
    fn = "predict" if k == "reg" else "predict_proba"
    with impl(fn):
        P, A = getattr(f, fn)(Q), f.apply(Q)
    steps = [1.0]
    if agg:
        steps.append(0.25)
    for st in steps:
        if st != 1.0:
            with impl("step"):
                f.step = st
        cfg = dict(aggregation=agg, step=st)
        if k == "clf":
            cfg["dirichlet"] = f.dirichlet
        for t, tr in enumerate(f.trees):
            yy = [float(v == t) for v in y] if kind == "ovr" else [float(v) for v in y]
            c = forestcheck.tree_case(f, k, t, tr, Xb, yy, [1.0] * n, cfg)
            g = T.from_forest_tree(tr, c)
            full_check(g, ctx, cat, agg, rows, fbq, False)
            ctx.add("traces")
    if agg:
        with impl("step"):
            f.step = 1.0
        with impl(fn):
            require(np.allclose(getattr(f, fn)(Q), P, rtol=1e-6, atol=1e-7), "going back to the first step changes the predictions")
    for name, dup in (("pickle", lambda: pickle.loads(pickle.dumps(f))), ("deepcopy", lambda: copy.deepcopy(f))):
        with impl(name):
            h = dup()
        with impl(fn):
            require(np.array_equal(getattr(h, fn)(Q), getattr(f, fn)(Q)), "%s changes the predictions", name)
            require(np.array_equal(h.apply(Q), A), "%s changes the leaves", name)
    ctx.state(tuple(case))
    ctx.outcome(np.round(P, 5).tobytes())


def check(case, ctx):
    return dict(tree=tree, two=two, forest=forest)[case[0]](case, ctx)
