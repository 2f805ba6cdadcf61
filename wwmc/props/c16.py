"""C16: each split considers max_features distinct features, uniformly drawn."""
import collections
import fractions
import itertools
import math

import numpy as np

from wwmc import families as Fm, seam, treecheck as T, model as M, forestcheck
from wwmc.common import SeamError, require, impl

ASSUMPTIONS = ["the generator behind randint is uniform (numba's Mersenne twister)",
               "uniformity of whole trees is bounded by 6.5 standard deviations over a fixed range of seeds; exact "
               "uniformity is decided on the enumerated outcomes of the draw"]


def setup(tier):
    try:
        seam._probe()
    except SeamError:
        pass


def cases(tier):
    th = tier == "thorough"
    for F in range(1, 8 if th else 7):
        for m in range(1, F + 1):
            yield ["draw", F, m]
    for F in range(1, 5 if th else 4):
        for m in range(1, F + 1):
            yield ["twice", F, m]
    for F in range(2, 8 if th else 7):
        for m in range(1, F + 1):
            for kind in ("clf", "reg"):
                for catm in range(3):
                    for var in range(3 if th else 1):
                        yield ["trees", F, m, kind, catm, 1200 if th else 500, var]
    for F in (17, 33, 70) + ((257, 300) if th else (257,)):
        for m in (1, math.isqrt(F), F // 2, F - 1, F):
            yield ["wide", F, m, (20 * F if m == 1 else 1000) // max(1, F * m // (20000 if th else 5000))]
    vals = [None, "auto", "sqrt", "log2"] + list(range(1, 33)) + [1e-9, 0.01, 0.1, 0.25, 0.3, 1 / 3, 0.34, 0.49, 0.5, 0.51, 2 / 3, 0.75, 0.99, 1.0]
    for F in list(range(1, 33)) + ([50, 63, 64, 65, 99, 100, 101] if th else [64, 100]):
        for v in vals:
            for kind in ("clf", "reg"):
                yield ["res", F, v, kind]
    for F in (3, 4, 5):
        for v in ("auto", "log2", 1, 2, 3, 0.5, 0.7, 1.0, None):
            for kind in ("clf", "reg", "ovr"):
                for agg in (False, True):
                    for s in range(6 if th else 2):
                        yield ["forest", F, v, kind, agg, s]


def resolved(v, F):
    if v is None:
        return F
    if v in ("auto", "sqrt"):
        return max(1, math.isqrt(F))
    if v == "log2":
        return max(1, F.bit_length() - 1)
    if isinstance(v, int):
        return v
    return max(1, int(v * F))


_SEED = None


class Stub:
    """Every outcome of the generator, depth first."""

    def __init__(self):
        self.path = []
        self.pos = 0
        self.calls = 0

    def randint(self, low, high=None, size=None, *a, **k):
        if size is not None:
            raise SeamError("randint with a size")
        if high is None:
            low, high = 0, low
        n = int(high) - int(low)
        if n < 1:
            require(False, "the generator is asked for one of %d values", n)
        self.calls += 1
        if self.pos == len(self.path):
            self.path.append([0, n])
        e = self.path[self.pos]
        self.pos += 1
        return int(low) + e[0]

    def prob(self):
        p = fractions.Fraction(1)
        for _, n in self.path[:self.pos]:
            p /= n
        return p

    def next(self):
        del self.path[self.pos:]
        self.pos = 0
        while self.path and self.path[-1][0] + 1 == self.path[-1][1]:
            self.path.pop()
        if not self.path:
            return False
        self.path[-1][0] += 1
        return True


def sampler():
    try:
        from wildwood._utils import sample_without_replacement as f
    except ImportError as e:
        raise SeamError("sample_without_replacement: %s" % e)
    return f


class patched:
    def __init__(self, py, stub):
        self.g, self.stub = py.__globals__, stub

    def __enter__(self):
        self.old = self.g.get("randint")
        self.np = np.random.randint
        self.g["randint"] = self.stub.randint
        np.random.randint = self.stub.randint

    def __exit__(self, *a):
        if self.old is None:
            self.g.pop("randint", None)
        else:
            self.g["randint"] = self.old
        np.random.randint = self.np


def uniform(seen, F, m, what):
    subs = collections.defaultdict(fractions.Fraction)
    for t, p in seen.items():
        require(len(set(t)) == len(t), "%s: a feature is drawn twice: %s", what, t)
        require(all(0 <= v < F for v in t), "%s: a feature out of range is drawn: %s", what, t)
        subs[frozenset(t)] += p
    want = fractions.Fraction(1, math.comb(F, m))
    for s in itertools.combinations(range(F), m):
        got = subs.get(frozenset(s), 0)
        require(got == want, "%s: the features %s are drawn with probability %s instead of %s", what, s, got, want)


def enumerate_draw(py, F, m, pool0, ctx):
    stub = Stub()
    seen = collections.defaultdict(fractions.Fraction)
    pools = set()
    n = 0
    with patched(py, stub):
        while True:
            pool = np.array(pool0, dtype=np.uintp)
            out = np.full(m, 10 ** 6, dtype=np.uintp)
            before = stub.calls
            with impl("drawing features"):
                py(pool, out)
            if stub.calls == before and F > 1 and m < F:
                raise SeamError("the draw does not use randint")
            seen[tuple(out.tolist())] += stub.prob()
            pools.add(tuple(pool.tolist()))
            n += 1
            ctx.add("transitions", stub.pos)
            if not stub.next():
                break
    ctx.add("outcomes_of_the_draw", n)
    return seen, pools


def seed_numba():
    import numba
    global _SEED
    if _SEED is None:
        @numba.njit
        def _SEED(s):
            np.random.seed(s)
    return _SEED


def draw(case, ctx):
    _, F, m = case
    f = sampler()
    py = getattr(f, "py_func", f)
    seen, pools = enumerate_draw(py, F, m, range(F), ctx)
    uniform(seen, F, m, "draw of %d out of %d" % (m, F))
    # the compiled function, over a range of seeds
    subs = collections.Counter()
    N = 2000
    pool, out = np.arange(F).astype(np.uintp), np.zeros(m, dtype=np.uintp)
    seed_numba()(F * 100 + m)
    for _ in range(N):
        with impl("drawing features"):
            f(pool, out)
        t = out.tolist()
        require(len(set(t)) == m and all(0 <= v < F for v in t), "the compiled draw gives %s", t)
        subs[frozenset(t)] += 1
    frequencies(subs, [frozenset(s) for s in itertools.combinations(range(F), m)], N, lambda s: 1 / math.comb(F, m),
                "compiled draw of %d out of %d" % (m, F))
    ctx.state((F, m))
    ctx.outcome(repr(sorted(seen)))
    ctx.add("traces")


def twice(case, ctx):
    """The second draw does not depend on what the first one left in the buffers."""
    _, F, m = case
    py = getattr(sampler(), "py_func", sampler())
    _, pools = enumerate_draw(py, F, m, range(F), ctx)
    for p in sorted(pools):
        seen, more = enumerate_draw(py, F, m, p, ctx)
        uniform(seen, F, m, "second draw of %d out of %d from the pool %s" % (m, F, p))
        ctx.state((F, m, p))
    ctx.add("traces")


def frequencies(cnt, keys, N, prob, what):
    for k in keys:
        p = prob(k)
        c = cnt.get(k, 0)
        sd = math.sqrt(N * p * (1 - p))
        require(abs(c - N * p) <= 6.5 * sd + 1e-9, "%s: %s occurs %d times out of %d instead of about %.1f",
                what, sorted(k) if isinstance(k, frozenset) else k, c, N, N * p)


def mixed(F, n, kind, var):
    """A fixed dataset whose features have different qualities (linear congruential numbers)."""
    x = 12345 + 777 * var

    def nxt():
        nonlocal x
        x = (1103515245 * x + 12345) % 2 ** 31
        return x >> 12
    X, y = [], []
    for i in range(n):
        lab = nxt() % 2 if kind == "clf" else float(nxt() % 16)
        row = []
        for f in range(F):
            good = nxt() % (2 + f) == 0
            row.append(int(lab) % 4 if good else nxt() % 4)
        X.append(row)
        y.append(lab)
    return X, y


def trees(case, ctx):
    _, F, m, kind, catm, S, var = case
    n = 40
    cat = [[False] * F, [True] * F, [f % 2 == 0 for f in range(F)]][catm]
    while True:
        X, y = mixed(F, n, kind, var)
        c = dict(kind=kind, ncls=2, cat=cat, X=X, y=y, w=[1.0] * n, tr=[i for i in range(n) if i % 4],
                 va=[i for i in range(n) if i % 4 == 0],
                 cfg=dict(aggregation=False, dirichlet=0.5, max_features=m, max_depth=3))
        if kind == "clf":
            c["cfg"]["criterion"] = "gini"
        per = [M.best_of_feature(c, k, c["tr"], []) for k in range(F)]
        if all(isinstance(p, float) for p in per) and min(
                [abs(a - b) for a, b in itertools.combinations(per, 2)], default=1) > 1e-3:
            break
        var += 10
    fb = seam.bitarray(X)
    ranks, joint = collections.Counter(), collections.defaultdict(collections.Counter)
    memo = {}
    shapes = set()

    def costs(ids):
        if ids not in memo:
            memo[ids] = [M.best_of_feature(c, k, list(ids), []) for k in range(F)]
        return memo[ids]
    total = 0
    for s in range(S):
        c["cfg"]["random_state"] = 1 + 7919 * s
        g = T.Grown.__new__(T.Grown)
        g.case = c
        g.tree = seam.fit_tree(c, fb)
        g.N = N = seam.tree_nodes(g.tree)
        key = (tuple(N.feature), tuple(N.bin_threshold), tuple(map(str, N.partition)), tuple(N.is_leaf))
        if key not in shapes:
            shapes.add(key)
            g.cells()
            T.check_splits(g, ctx, max_features=m)
            ctx.state((F, m, kind, key))
        else:
            g.cells()
        per = costs(tuple(g.ctr[0]))
        require(not N.is_leaf[0], "the root is a leaf although every feature has a split")
        order = sorted(range(F), key=lambda k: per[k])
        r = order.index(N.feature[0])
        ranks[r] += 1
        total += 1
        # which side: the child with more samples
        ch = max(N.left_child[0], N.right_child[0], key=lambda v: len(g.ctr[v]))
        pc = costs(tuple(g.ctr[ch]))
        if not N.is_leaf[ch] and all(isinstance(p, float) for p in pc):
            oc = sorted(range(F), key=lambda k: pc[k])
            joint[r][oc.index(N.feature[ch])] += 1
        ctx.add("trees_grown")
    if m == F:
        require(set(ranks) == {0}, "with all the features the best one must be split")
    else:
        # P(best drawn has rank r) = C(F-1-r, m-1) / C(F, m)
        frequencies(ranks, list(range(F)), total, lambda r: math.comb(F - 1 - r, m - 1) / math.comb(F, m) if r <= F - m else 0.0,
                    "rank of the feature split at the root (max_features=%d of %d)" % (m, F))
        for r, cc in joint.items():
            tot = sum(cc.values())
            if tot >= 80:
                require(len(cc) > 1, "given the draw at the root, the draw at its child is always the same")
    ctx.outcome((F, m, kind, tuple(sorted(ranks.items()))))
    ctx.add("traces")


def wide(case, ctx):
    """many features of distinct known values: the one split at the root is the best of m drawn uniformly"""
    _, F, m, S = case
    n = 4 * F
    X = [[int(i > f) for f in range(F)] for i in range(n + 1)]
    c = dict(kind="reg", ncls=2, cat=[False] * F, X=X, y=[float(min(i, n - 1)) for i in range(n + 1)], w=[1.0] * (n + 1),
             tr=list(range(n)), va=[n], cfg=dict(aggregation=False, max_features=m, max_depth=2))
    fb = seam.bitarray(X)
    ranks = collections.Counter()
    for s in range(S):
        c["cfg"]["random_state"] = 1 + 7919 * s
        N = seam.tree_nodes(seam.fit_tree(c, fb))
        require(not N.is_leaf[0], "the root is a leaf although every feature has a split")
        # feature f cuts after f + 1 of the 4 F samples: the later, the better
        ranks[F - 1 - int(N.feature[0])] += 1
        ctx.add("trees_grown")
    if m == F:
        require(set(ranks) == {0}, "with all the features the best one must be split")
    else:
        def prob(r):
            return math.comb(F - 1 - r, m - 1) / math.comb(F, m) if r <= F - m else 0.0
        frequencies(ranks, [r for r in range(F) if S * prob(r) >= 1 or prob(r) == 0], S, prob,
                    "rank of the feature split at the root (max_features=%d of %d)" % (m, F))
        require(m > 1 or S < 20 * F or len(ranks) == F, "only %d of %d features are ever drawn", len(ranks), F)
    ctx.outcome((F, m, tuple(sorted(ranks.items()))))
    ctx.add("traces")


def res(case, ctx):
    from wildwood import ForestClassifier, ForestRegressor
    _, F, v, kind = case
    cls = ForestClassifier if kind == "clf" else ForestRegressor
    X = np.array([[float((i * (f + 1)) % 5) for f in range(F)] for i in range(6)])
    y = np.array([0, 1, 0, 1, 1, 0])
    f = cls(n_estimators=1, random_state=1, max_features=v, categorical_features=[False] * F)
    if isinstance(v, int) and v > F:
        try:
            f.fit(X, y)
        except ValueError:
            ctx.add("refused")
            return
        require(False, "max_features=%d is accepted with %d features", v, F)
    with impl("fit"):
        f.fit(X, y)
    got = getattr(f, "max_features_", None)
    if got is None:
        raise SeamError("max_features_")
    require(got == resolved(v, F), "max_features=%r with %d features resolves to %s instead of %d", v, F, got, resolved(v, F))
    ctx.state((F, v, kind))
    ctx.add("traces")


def forest(case, ctx):
    _, F, v, kind, agg, s = case
    m = resolved(v, F)
    n = 30
    k = "reg" if kind == "reg" else "clf"
    X, y = mixed(F, n, k, s)
    ovr = kind == "ovr"
    if ovr:
        y = [(i + int(t)) % 3 for i, t in enumerate(y)]
    kw = dict(n_estimators=20, random_state=s, max_features=v, aggregation=agg, categorical_features=[False] * F, max_depth=4)
    if ovr:
        kw.update(multiclass="ovr", n_estimators=10)
    f = forestcheck.fit_forest(k, np.array(X, dtype=float), np.array(y), None, **kw)
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder")
    with impl("transform"):
        Xb = seam.bitarray_to_array(enc.transform(np.array(X, dtype=float))).tolist()
    cfg = dict(aggregation=agg, max_depth=4)
    if k == "clf":
        cfg.update(criterion="gini", dirichlet=0.5)
    for t, tree in enumerate(f.trees):
        yy = [float(v == t // 10) for v in y] if ovr else [float(v) for v in y]
        c = forestcheck.tree_case(f, k, t, tree, Xb, yy, [1.0] * n, cfg)
        g = T.from_forest_tree(tree, c)
        T.check_splits(g, ctx, max_features=m)
        ctx.add("traces")
    ctx.state((F, v, kind, agg, s))


def check(case, ctx):
    return dict(draw=draw, twice=twice, trees=trees, res=res, forest=forest, wide=wide)[case[0]](case, ctx)
