"""C04: every split is the best admissible one and nodes stop only when they must."""
import itertools

from wwmc import families as Fm, seam, treecheck as T, treefams
from wwmc.common import SeamError

ASSUMPTIONS = ["impurities are compared with a float32 tolerance; ties may be broken in any way",
               "the order of categories with equal sort keys is free",
               "the purity of the root is not tested by the code and left free"]
NAMES = []


def setup(tier):
    NAMES[:] = treefams.setup(tier == "thorough")
    try:
        seam._probe()
    except SeamError:
        pass


def cats(th):
    """Categorical features with more categories, every class profile."""
    n = 6 if th else 5
    for kind in ("clf", "reg"):
        for prof in itertools.product(range(3), repeat=n):
            for crit in (("gini", "entropy") if kind == "clf" else ("mse",)):
                X, y = [], []
                for b, p in enumerate(prof):
                    labs = ((0, 0), (0, 1), (1, 1))[p]
                    for v in labs:
                        X.append([b])
                        y.append(v if kind == "clf" else float(v * (b + 1)))
                k = len(X)
                X = X + [[b] for b in range(n)]
                y = y + ([0] * n if kind == "clf" else [0.0] * n)
                for agg in (False, True):
                    yield dict(kind=kind, ncls=2, cat=[True], X=X, y=y, w=[1.0] * len(X), tr=list(range(k)),
                               va=list(range(k, len(X))), cfg=dict(criterion=crit, aggregation=agg, dirichlet=0.5))


def cases(tier):
    th = tier == "thorough"
    yield from treefams.which_feature(th)
    yield from treefams.wide(th)
    for c in treefams.dims(th):
        # the reference enumerates every split of every node
        k = c["ncls"] ** (2 if any(c["cat"]) else 1)
        if len(c["X"]) * len(c["X"][0]) * k <= (60000 if th else 8000):
            yield c
    yield from treefams.limits_small(th)
    yield from cats(th)
    yield from treefams.limits(th)
    yield from Fm.enum(NAMES)


def check(case, ctx):
    c = Fm.expand(case)
    if c["kind"] == "reg":
        c["cfg"].pop("criterion", None)
    elif not c["cfg"].get("criterion"):
        c["cfg"]["criterion"] = "gini"
    g = T.Grown(c)
    T.check_splits(g, ctx)
    ctx.add("traces")
