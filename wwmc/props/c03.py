"""C03: every tree is a consistent recursive partition respecting the growth limits."""
from wwmc import families as Fm, seam, treecheck as T, treefams
from wwmc.common import SeamError

ASSUMPTIONS = ["splits are read from the grown tree; samples and query rows are routed by the reference"]
NAMES = []


def setup(tier):
    NAMES[:] = treefams.setup(tier == "thorough")
    try:
        seam._probe()
    except SeamError:
        pass


def cases(tier):
    th = tier == "thorough"
    yield from forest_cases(th)
    yield from treefams.which_feature(th)
    yield from treefams.wide(th)
    yield from treefams.dims(th)
    yield from treefams.limits_small(th)
    yield from treefams.limits(th)
    yield from Fm.enum(NAMES)


def forest_cases(th):
    for kind in ("clf", "reg"):
        for cat in (0, 1, 2):
            for miss in range(8):
                for agg in (True, False):
                    for s in range(8 if th else 3):
                        yield ["forest", kind, cat, miss, agg, s]


def check(case, ctx):
    if isinstance(case, list) and case[0] == "forest":
        from wwmc import forestcheck
        return forestcheck.partition(case, ctx)
    g = T.Grown(Fm.expand(case))
    T.check_partition(g, ctx)
    ctx.add("traces")
