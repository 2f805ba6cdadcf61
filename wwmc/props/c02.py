"""C02: node predictions are the weighted in-bag statistics, smoothed as documented."""
import itertools

import numpy as np

from wwmc import families as Fm, model as M, seam, treecheck as T, treefams
from wwmc.common import SeamError, require

ASSUMPTIONS = ["splits are read from the grown tree; samples are re-routed by the reference"]
NAMES = []


def setup(tier):
    NAMES[:] = treefams.setup(tier == "thorough", dirs=(0.5, 0.0625) if tier == "thorough" else (0.5,))
    try:
        seam._probe()
    except SeamError:
        pass


def dup_cases(th):
    """A weight k is k copies of the line: all weightings of small samples."""
    n = 4 if th else 3
    for kind, labels in (("clf", (0, 1)), ("reg", (0.0, 2.0))):
        for cat in (False, True):
            for lab in itertools.product(labels, repeat=n):
                for wt in itertools.product((1, 2, 3), repeat=n):
                    for vw in itertools.product((1, 3), repeat=2):
                        for agg in (True, False):
                            yield ["dup", kind, cat, list(lab), list(wt), list(vw), agg]


def dirichlets(th):
    for dr in (1e-3, 0.01, 0.1, 0.25, 0.5, 1.0, 2.0, 7.5, 100.0):
        for ncls in (2, 3, 4, 5):
            for lab in itertools.product(range(ncls), repeat=3):
                for agg in (True, False):
                    yield dict(kind="clf", ncls=ncls, cat=[False], X=[[0], [1], [2], [0], [1], [2]],
                               y=list(lab) + [0, 1, 0], w=[1.0, 2.0, 0.5, 1.0, 1.0, 1.0], tr=[0, 1, 2], va=[3, 4, 5],
                               cfg=dict(dirichlet=float(np.float32(dr)), aggregation=agg))


def forest_cases(th):
    for kind in ("clf", "reg"):
        for n in (3, 4, 5):
            for lab in itertools.product((0, 1), repeat=n):
                if len(set(lab)) < 2:
                    continue
                for wmode in range(3):
                    for agg in (True, False):
                        yield ["forest", kind, n, list(lab), wmode, agg]


def cases(tier):
    th = tier == "thorough"
    yield from forest_cases(th)
    yield from dup_cases(th)
    yield from dirichlets(th)
    yield from treefams.which_feature(th)
    yield from treefams.wide(th)
    yield from treefams.dims(th)
    yield from treefams.limits_small(th)
    yield from Fm.enum(NAMES)


def check(case, ctx):
    ctx.add("traces")
    if isinstance(case, list) and case[0] == "forest":
        from wwmc import forestcheck
        return forestcheck.node_predictions(case, ctx)
    if isinstance(case, list) and case[0] == "dup":
        return dup(case, ctx)
    g = T.Grown(Fm.expand(case))
    T.check_node_predictions(g, ctx)


def dup(case, ctx):
    _, kind, cat, lab, wt, vw, agg = case
    n = len(lab)
    cfg = dict(aggregation=agg, dirichlet=0.5)
    X = [[i] for i in range(n)] + [[0], [n - 1]]
    y = list(lab) + [lab[0], lab[1]]
    w = [float(v) for v in wt + vw]
    a = dict(kind=kind, ncls=2, cat=[cat], X=X, y=y, w=w, tr=list(range(n)), va=[n, n + 1], cfg=cfg)
    X2, y2, tr2, va2 = [], [], [], []
    for i in range(n + 2):
        for _ in range(int(w[i])):
            (tr2 if i < n else va2).append(len(X2))
            X2.append(X[i])
            y2.append(y[i])
    b = dict(a, X=X2, y=y2, w=[1.0] * len(X2), tr=tr2, va=va2)
    rows = [[i] for i in range(n + 1)]
    fb = seam.bitarray(rows)
    A, B = T.Grown(a), T.Grown(b)
    T.check_node_predictions(A, ctx)
    T.check_node_predictions(B, ctx)
    PA, PB = T.rows_pred(A, rows, fb), T.rows_pred(B, rows, fb)
    if not np.allclose(PA, PB, atol=1e-5):
        # a tie between splits may be broken differently: then the trees differ but not their costs
        if [A.N.feature, A.N.bin_threshold, A.N.partition] == [B.N.feature, B.N.bin_threshold, B.N.partition]:
            require(False, "weights %s do not act as copies of the lines: %s instead of %s", wt + vw,
                    PA.tolist(), PB.tolist())
        ctx.add("tie_broken_differently")
