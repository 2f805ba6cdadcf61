"""C01: aggregated predictions are the exact average over all prunings."""
import itertools

from wwmc import families as Fm, seam, treecheck as T, treefams
from wwmc.common import SeamError

ASSUMPTIONS = [
    "the structure of the tree (children, splits) is read from the grown tree; samples are re-routed, node "
    "predictions, losses and weights recomputed in float64",
    "float32 rounding is bounded by interval arithmetic on the log-weights",
]
B3 = [(0,), (1,), (2,)]
BC = [(0,), (1,), (2,), (3,)]
B22 = list(itertools.product(range(2), range(3)))


def setup(tier):
    th = tier == "thorough"
    agg = dict(aggregation=[True])
    Fm.fam("clf1", "clf", B3, [0, 1], [False],
           Fm.combos(step=[1.0], dirichlet=[0.5], criterion=["gini"], **agg)
           + Fm.combos(step=[0.25], dirichlet=[2.0], criterion=["entropy"], **agg),
           range(1, 6 if th else 5), range(1, 5 if th else 4))
    Fm.fam("clfcat", "clf", BC, [0, 1], [True],
           Fm.combos(step=[2.0], dirichlet=[0.125], cat_split_strategy=["binary"], **agg),
           range(2, 5 if th else 4), range(2, 4))
    Fm.fam("clf3", "clf", B3, [0, 1, 2], [False],
           Fm.combos(step=[1.0], dirichlet=[0.75], **agg), range(2, 5 if th else 4), range(2, 4 if th else 3))
    Fm.fam("clf2f", "clf", B22, [0, 1], [False, True],
           Fm.combos(step=[1.0], dirichlet=[0.5], **agg), range(2, 4 if th else 3), range(2, 4 if th else 3))
    Fm.fam("reg1", "reg", B3, [0.0, 1.0, 3.0], [False],
           Fm.combos(step=[1.0], **agg), range(1, 5 if th else 4), range(1, 4 if th else 3))
    Fm.fam("regcat", "reg", B3, [-1.0, 0.0, 2.0], [True],
           Fm.combos(step=[0.5], **agg), range(2, 4), range(2, 4 if th else 3))
    Fm.fam("w", "clf", [(0,), (1,)], [0, 1], [False],
           Fm.combos(step=[1.0], dirichlet=[0.5], **agg), range(2, 4 if th else 4), range(2, 4 if th else 3),
           weights=(0.5, 1.0, 3.0))
    Fm.fam("wreg", "reg", [(0,), (1,)], [0.0, 2.0], [False],
           Fm.combos(step=[1.0], **agg), range(2, 4), range(2, 3), weights=(0.5, 1.0, 3.0))
    seam._tree_classes()
    try:
        seam._probe()
    except SeamError:
        pass


NAMES = ["clf1", "clfcat", "clf3", "clf2f", "reg1", "regcat", "w", "wreg"]


def deep(tier):
    """Deep trees: one in-bag and one out-of-bag sample per bin, every labelling of the in-bag ones."""
    n = 8 if tier == "thorough" else 6
    for kind, labels in (("clf", [0, 1]), ("reg", [0.0, 4.0])):
        for lab in itertools.product(labels, repeat=n):
            for vmode in range(3):
                for dup in (1, 2):
                    vl = [labels[0]] * n if vmode == 0 else list(lab) if vmode == 1 else list(lab[::-1])
                    for step in ((1.0,) if kind == "clf" else (1.0, 0.03125)):
                        X = [[b] for b in range(n)] * (1 + dup)
                        yield dict(kind=kind, ncls=2, cat=[False], X=X, y=list(lab) + vl * dup,
                                   w=[1.0] * len(X), tr=list(range(n)), va=list(range(n, n * (1 + dup))),
                                   cfg=dict(step=step, aggregation=True, dirichlet=0.5))


def scales(tier):
    """Large losses: label scales, steps, weights and sample counts up to the breakdown of exp() in float32."""
    sc = [1e-3, 1.0, 10.0, 1e2, 1e3, 1e4, 1e5]
    steps = [1e-3, 0.1, 1.0, 10.0, 100.0, 1000.0]
    for s in sc:
        for st in steps:
            for lab in itertools.product((0.0, 1.0), repeat=4):
                for va in itertools.product((0.0, 1.0), repeat=4):
                    yield dict(kind="reg", ncls=1, cat=[False], X=[[0], [1], [2], [3]] * 2,
                               y=[s * v for v in lab + va], w=[1.0] * 8, tr=[0, 1, 2, 3], va=[4, 5, 6, 7],
                               cfg=dict(step=st, aggregation=True), big=1)
    # labels far from zero: the losses do not depend on their origin
    for off in (16.0, -256.0, 1024.0, -4096.0, 16384.0):
        for st in (0.25, 1.0, 16.0):
            for lab in itertools.product((0.0, 1.0), repeat=4):
                for va in itertools.product((0.0, 1.0), repeat=4):
                    yield dict(kind="reg", ncls=1, cat=[False], X=[[0], [1], [2], [3]] * 2,
                               y=[off + v for v in lab + va], w=[1.0] * 8, tr=[0, 1, 2, 3], va=[4, 5, 6, 7],
                               cfg=dict(step=st, aggregation=True), big=1)
    for wt in (1e-3, 1.0, 100.0, 1e4):
        for st in steps:
            for dr in (1e-4, 0.5, 10.0):
                for lab in itertools.product((0, 1), repeat=3):
                    for va in itertools.product((0, 1), repeat=3):
                        yield dict(kind="clf", ncls=2, cat=[False], X=[[0], [1], [2]] * 2,
                                   y=list(lab + va), w=[1.0, 1.0, 1.0, wt, wt, wt], tr=[0, 1, 2], va=[3, 4, 5],
                                   cfg=dict(step=st, aggregation=True, dirichlet=dr), big=1)
    for nrep in (10, 100, 300, 1000):
        for st in (1.0, 0.1):
            for va in itertools.product((0, 1), repeat=3):
                X = [[0], [1], [2]] + [[0], [1], [2]] * nrep
                yield dict(kind="clf", ncls=2, cat=[False], X=X, y=[0, 1, 0] + list(va) * nrep,
                           w=[1.0] * len(X), tr=[0, 1, 2], va=list(range(3, len(X))),
                           cfg=dict(step=st, aggregation=True, dirichlet=0.5), big=1)


def contrast(tier):
    """every pair of in-bag and out-of-bag labellings of four bins: all orders of magnitude of the weights of a path"""
    for lab in itertools.product((0.0, 1.0, 4.0), repeat=4):
        if len(set(lab)) > 1:
            for val in itertools.product((0.0, 1.0, 4.0), repeat=4):
                for step in (2.0, 0.1) if tier == "thorough" else (2.0,):
                    yield dict(kind="reg", ncls=2, cat=[False], X=[[b] for b in range(4)] * 2, y=list(lab) + list(val),
                               w=[1.0] * 8, tr=list(range(4)), va=list(range(4, 8)), cfg=dict(step=step, aggregation=True))


def forest_cases(tier):
    """The public interface: a whole forest, its trees one by one."""
    for kind in ("clf", "reg"):
        for n in (4, 5, 6):
            for lab in itertools.product((0, 1), repeat=n):
                if len(set(lab)) < 2:
                    continue
                for s in range(4 if tier == "thorough" else 1):
                    yield ["forest", kind, n, list(lab), s]


def cases(tier):
    yield from deep(tier)
    yield from scales(tier)
    yield from forest_cases(tier)
    yield from contrast(tier)
    yield from treefams.dims(tier == "thorough", agg=(True,))
    yield from Fm.enum(NAMES)


def check(case, ctx):
    if isinstance(case, list) and case[0] == "forest":
        from wwmc import forestcheck
        return forestcheck.aggregation(case, ctx)
    c = Fm.expand(case)
    if c.get("big"):
        import numpy as np
        c = dict(c)
        c["y"] = [float(np.float32(v)) for v in c["y"]]
        c["w"] = [float(np.float32(v)) for v in c["w"]]
        c["cfg"] = dict(c["cfg"], step=float(np.float32(c["cfg"]["step"])))
        if "dirichlet" in c["cfg"]:
            c["cfg"]["dirichlet"] = float(np.float32(c["cfg"]["dirichlet"]))
    g = T.Grown(c)
    T.check_aggregation(g, ctx)
    ctx.add("traces")
