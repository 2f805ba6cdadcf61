"""Families shared by C02, C03 and C04 (one grown tree per case)."""
import itertools

from wwmc import families as Fm

B3 = [(0,), (1,), (2,)]
B4 = [(0,), (1,), (2,), (3,)]
B23 = list(itertools.product(range(2), range(3)))
B222 = list(itertools.product(range(2), repeat=3))


def setup(th, dirs=(0.5,), small=False):
    """Registers the families; `th`: thorough bounds."""
    d = dict(dirichlet=list(dirs))
    crit = dict(criterion=["gini", "entropy"])
    aggs = dict(aggregation=[True, False])
    names = []

    def fam(name, *a, **k):
        names.append(Fm.fam(name, *a, **k))
    # continuous, two classes
    fam("c2", "clf", B3, [0, 1], [False], Fm.combos(**d, **crit, **aggs), range(1, 6 if th else 4), range(1, 4 if th else 3))
    # categorical, two classes
    fam("k2", "clf", B4, [0, 1], [True], Fm.combos(**d, **crit, **aggs), range(1, 5 if th else 4), range(1, 3))
    # no aggregation: more in-bag samples, one out-of-bag sample
    fam("c2n", "clf", B4, [0, 1], [False], Fm.combos(**d, **crit, aggregation=[False]), range(4, 7 if th else 6), [1])
    fam("k2n", "clf", B4, [0, 1], [True], Fm.combos(**d, **crit, aggregation=[False]), range(4, 7 if th else 6), [1])
    # three classes
    fam("c3", "clf", B3, [0, 1, 2], [False], Fm.combos(**d, **crit, aggregation=[False]), range(1, 6 if th else 5), [1])
    fam("k3", "clf", B3, [0, 1, 2], [True],
        Fm.combos(**d, aggregation=[False], cat_split_strategy=["binary", "all", "random"]), range(2, 6 if th else 5), [1])
    fam("k3a", "clf", B3, [0, 1, 2], [True],
        Fm.combos(**d, aggregation=[True], cat_split_strategy=["binary", "all", "random"], criterion=["entropy"]),
        range(2, 4), range(2, 4 if th else 3))
    # two and three features of mixed types
    fam("m2", "clf", B23, [0, 1], [False, True], Fm.combos(**d, **aggs), range(1, 5 if th else 4), range(1, 3 if th else 2))
    fam("m2a", "clf", B23, [0, 1], [True, False], Fm.combos(**d, aggregation=[True]), range(2, 4 if th else 3), range(2, 4 if th else 3))
    fam("m3", "clf", B222, [0, 1], [True, False, False], Fm.combos(**d, aggregation=[False]), range(2, 5 if th else 4), [1])
    # regression
    fam("r1", "reg", B3, [0.0, 1.0, 3.0], [False], Fm.combos(**aggs), range(1, 5 if th else 4), range(1, 4 if th else 3))
    fam("rk", "reg", B3, [-1.0, 0.0, 2.0], [True], Fm.combos(**aggs), range(1, 5 if th else 4), range(1, 4 if th else 3))
    fam("rn", "reg", B4, [-2.0, 1.0, 4.0], [False], Fm.combos(aggregation=[False]), range(3, 6 if th else 5), [1])
    fam("rkn", "reg", B4, [-2.0, 1.0, 4.0], [True], Fm.combos(aggregation=[False]), range(3, 6 if th else 5), [1])
    fam("rm", "reg", B23, [0.0, 2.0], [True, False], Fm.combos(aggregation=[False]), range(2, 5 if th else 4), [1])
    # weights
    W = (0.0, 0.5, 1.0, 3.0) if th else (0.0, 0.5, 3.0)
    fam("w2", "clf", [(0,), (1,)], [0, 1], [False], Fm.combos(**d, **aggs), range(2, 5 if th else 4), range(2, 3), weights=W)
    fam("wk", "clf", B3, [0, 1], [True], Fm.combos(**d, aggregation=[False]), range(2, 4), [1], weights=(0.5, 1.0, 3.0))
    fam("wr", "reg", [(0,), (1,)], [0.0, 2.0], [False], Fm.combos(**aggs), range(2, 5 if th else 4), range(2, 3), weights=W)
    fam("wrk", "reg", B3, [0.0, 2.0], [True], Fm.combos(aggregation=[False]), range(2, 4), [1], weights=(0.5, 1.0, 3.0))
    # every order of the samples
    fam("seq", "clf", B3, [0, 1], [False], Fm.combos(**d, aggregation=[False]), range(2, 6 if th else 5), [1], seqs=True)
    fam("seqk", "clf", B3, [0, 1], [True], Fm.combos(**d, aggregation=[True]), range(2, 5 if th else 4), [2], seqs=True)
    return names


def limits(th):
    """Growth limits: one or two in-bag samples per bin, every labelling, all limits."""
    n = 7 if th else 5
    md = [1, 2, 3, None]
    mss = [2, 3, 4, 5]
    msl = [1, 2, 3]
    for kind, labels in (("clf", (0, 1)), ("reg", (0.0, 1.0))):
        for cat in (False, True):
            for dup in (1, 2):
                for lab in itertools.product(labels, repeat=n):
                    for a, b, c in itertools.product(md, mss, msl):
                        for agg in (True, False):
                            if agg and dup == 1 and c > 1:
                                va = [[x] for x in range(n)] * 2
                            else:
                                va = [[x] for x in range(n)]
                            X = [[x] for x in range(n)] * dup + va
                            k = n * dup
                            yl = list(lab) * dup
                            yield dict(kind=kind, ncls=2, cat=[cat], X=X, y=yl + [lab[x[0]] for x in va],
                                       w=[1.0] * len(X), tr=list(range(k)), va=list(range(k, len(X))),
                                       cfg=dict(max_depth=a, min_samples_split=b, min_samples_leaf=c,
                                                aggregation=agg, dirichlet=0.5))


def limits_small(th):
    """Uneven out-of-bag layouts against the limits."""
    for kind, labels in (("clf", (0, 1)), ("reg", (0.0, 1.0))):
        for cat in (False, True):
            for lab in itertools.product(labels, repeat=4):
                for vs in itertools.combinations_with_replacement(range(5), 4):
                    for b, c in ((2, 1), (2, 2), (3, 1), (4, 2)):
                        X = [[0], [1], [2], [3], [1], [2]] + [[v] for v in vs]
                        yield dict(kind=kind, ncls=2, cat=[cat], X=X,
                                   y=list(lab) + [lab[2], lab[1]] + [labels[v % 2] for v in vs],
                                   w=[1.0] * len(X), tr=list(range(6)), va=list(range(6, 10)),
                                   cfg=dict(max_depth=None, min_samples_split=b, min_samples_leaf=c,
                                            aggregation=True, dirichlet=0.5))


def which_feature(th):
    """F features, the label depends on feature j only: every F, j and type; and wide bins."""
    for F in range(1, 7):
        for j in range(F):
            for catm in range(3):
                for kind in ("clf", "reg"):
                    for nb in (2, 3, 5):
                        for agg in (True, False):
                            n = 3 * nb
                            X, y = [], []
                            for rep in range(2):
                                for i in range(n):
                                    row = [(i // nb + f) % 2 if f != j else i % nb for f in range(F)]
                                    X.append(row)
                                    y.append((i % nb) % 2 if kind == "clf" else float((i % nb) ** 2))
                            cat = [(f + catm) % 2 == 0 if catm < 2 else f == j for f in range(F)]
                            yield dict(kind=kind, ncls=2, cat=cat, X=X, y=y, w=[1.0] * len(X),
                                       tr=list(range(0, 2 * n, 2)), va=list(range(1, 2 * n, 2)),
                                       cfg=dict(aggregation=agg, dirichlet=0.5))


def wide(th):
    """Number of bins around powers of two, sparse and dense occupation, both types."""
    tops = [3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300] + ([511, 512, 1000] if th else [])
    for top in tops:
        for cat in (False, True):
            for kind in ("clf", "reg"):
                for pick in range(4):
                    bins = sorted(set([0, top] + ([1, top - 1] if pick > 0 else []) + ([top // 2] if pick > 1 else [])
                                      + ([top // 2 - 1, top // 2 + 1] if pick > 2 else [])))
                    for flip in range(4):
                        X = [[b] for b in bins] * 2
                        lab = [(i * (flip + 1) // (1 + flip % 2)) % 2 for i in range(len(bins))]
                        y = (lab * 2) if kind == "clf" else [float(v) for v in lab * 2]
                        for agg in (True, False):
                            yield dict(kind=kind, ncls=2, cat=[cat], X=X, y=y, w=[1.0] * len(X),
                                       tr=list(range(len(bins))), va=list(range(len(bins), 2 * len(bins))),
                                       cfg=dict(aggregation=agg, dirichlet=0.5))


def _lcg(seed):
    s = seed * 2654435761 % 2 ** 32 or 1
    while True:
        s = (1664525 * s + 1013904223) % 2 ** 32
        yield s >> 8


def dims(th, agg=(True, False)):
    """All combinations of sizes: classes, features, bins, rows, types, weights (the values themselves are arbitrary but fixed)."""
    for ncls in (0, 2, 3, 6, 17, 40):
        for F in (1, 4, 9, 33, 70):
            for nb in (2, 6, 40, 300):
                for n in (10, 70) + ((400,) if th else ()):
                    for catm in range(3):
                        if F * nb * max(1, ncls) > 40000 or ncls > n:
                            continue
                        for a in agg:
                            wm = (F + nb + n + catm + ncls) % 3
                            r = _lcg(ncls * 1000003 + F * 1009 + nb * 17 + n + catm)
                            X = [[next(r) % nb for _ in range(F)] for _ in range(2 * n)]
                            if ncls:
                                y = [(i if i < ncls else next(r) + X[i][0]) % ncls for i in range(n)]
                                y += [next(r) % ncls for i in range(n)]
                            else:
                                y = [float((X[i][0] * 3 + next(r) % 4) % 11) - 3.0 for i in range(2 * n)]
                            w = [1.0 if wm == 0 else (0.5, 1.0, 2.0)[next(r) % 3] if wm == 1 else float(1 + 100 * (next(r) % 5 == 0))
                                 for _ in range(2 * n)]
                            cat = [(False, True, f % 2 == 0)[catm] for f in range(F)]
                            yield dict(kind="clf" if ncls else "reg", ncls=max(ncls, 2), cat=cat, X=X, y=y, w=w,
                                       tr=list(range(n)), va=list(range(n, 2 * n)),
                                       cfg=dict(aggregation=a, dirichlet=0.5, step=0.25,
                                                cat_split_strategy="binary" if ncls <= 2 else ("all", "random")[(F + n) % 2]))
