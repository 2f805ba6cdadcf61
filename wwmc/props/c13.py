"""C13: forest predictions combine the trees as documented, for any label type."""
import itertools

import numpy as np
import pandas as pd

from wwmc import seam, treecheck as T, model as M
from wwmc.common import SeamError, require, impl

ASSUMPTIONS = ["ties of the highest probability may be broken in any way"]
ALPH = {
    "int": lambda: [0, 1, 2, 3],
    "gap": lambda: [-3, 5, 10, 1000],
    "flt": lambda: [-1.0, 0.0, 2.0, 7.0],
    "str": lambda: ["a", "aa", "b", "c"],
    "cap": lambda: ["B", "Z", "a", "b"],
    "bool": lambda: [False, True],
    "u1": lambda: [3, 4, 9, 250],
    "big": lambda: [2 ** 40, 2 ** 40 + 1, 2 ** 60, 2 ** 61],
    "dig": lambda: ["1", "10", "2", "3"],
}
CONT = {"int": ["np", "list", "series"], "gap": ["np", "series"], "flt": ["np", "f4"], "str": ["np", "obj", "list", "series", "cat"],
        "cap": ["np", "obj"], "bool": ["np", "list"], "u1": ["u1"], "big": ["np"], "dig": ["np", "obj"]}


def setup(tier):
    from wildwood import ForestClassifier, ForestRegressor  # noqa: F401


def cases(tier):
    th = tier == "thorough"
    n = 6
    for K in (2, 3):
        for lab in itertools.product(range(K), repeat=n):
            if len(set(lab)) == K:
                for ovr in (False, True):
                    for agg in (False, True):
                        yield ["clf", list(lab), ovr, agg, 0.5, "int", "np", "b"]
    for lab in itertools.product(range(4), repeat=6 if th else 5):
        if len(set(lab)) == 4:
            for ovr in (False, True):
                yield ["clf", list(lab), ovr, False, 0.5, "int", "np", "b"]
    for al, conts in CONT.items():
        for cont in conts:
            for K in (2, 3, 4):
                if K > len(ALPH[al]()):
                    continue
                for perm in itertools.permutations(range(K)):
                    lab = list(perm) + list(perm)[::-1] + [perm[0], perm[-1]]
                    for ovr in (False, True):
                        for agg in (False, True):
                            yield ["clf", lab, ovr, agg, 0.5, al, cont, "b"]
    for lab in itertools.product(range(3), repeat=6):
        if len(set(lab)) == 3:
            yield ["clf", list(lab), True, False, 0.0, "int", "np", "b"]
            yield ["clf", list(lab), True, True, 1e-8, "str", "np", "b"]
    # scores of all classes small, but not null
    for K, n in ((3, 6), (4, 5)):
        for lab in itertools.product(range(K), repeat=n):
            if len(set(lab)) == K and list(dict.fromkeys(lab)) == list(range(K)):
                for d in (1e-2, 1e-3, 1e-4):
                    yield ["clf", list(lab), True, False, d, "int", "np", "b"]
    for strat in ("binary", "all", "random"):
        for lab in itertools.product(range(3), repeat=5):
            if len(set(lab)) == 3:
                for ovr in (False, True):
                    yield ["clf", list(lab) + list(lab[:2]), ovr, False, 0.5, "int", "np", strat]
    for lab in itertools.product((0, 1, 5), repeat=6 if th else 5):
        for agg in (False, True):
            for sc in (1.0, -0.001, 1e6):
                yield ["reg", list(lab), agg, sc]
    # numbers of classes and of trees
    for K in (2, 3, 20, 33, 70):
        for ne in (1, 2, 10, 33, 64, 129):
            for ovr in (False, True):
                if K * ne <= (2500 if not ovr else 400):
                    yield ["clf", [(i * i + i // K) % K if i >= K else i for i in range(max(8, K + K // 2))], ovr, ne % 2 == 0, 0.5, "long",
                           "np", "b", ne]
    for ne in (1, 2, 10, 33, 64, 129, 300):
        for agg in (False, True):
            yield ["reg", [0, 1, 5, 1, 0, 5, 5], agg, 1.0, ne]
    for K in (5, 8, 12):
        for ovr in (False, True):
            for agg in (False, True):
                yield ["clf", [i % K for i in range(3 * K)], ovr, agg, 0.5, "long", "np", "b"]


def labels(lab, al, cont):
    vals = list(range(100, 100 + max(lab) + 1)) if al == "long" else ALPH[al]()
    y = [vals[v] for v in lab]
    if cont == "np":
        return np.array(y), y
    if cont == "f4":
        return np.array(y, dtype=np.float32), y
    if cont == "u1":
        return np.array(y, dtype=np.uint8), y
    if cont == "obj":
        return np.array(y, dtype=object), y
    if cont == "list":
        return list(y), y
    if cont == "series":
        return pd.Series(y, index=[i * 2 + 1 for i in range(len(y))]), y
    return pd.Series(pd.Categorical(y)), y


def rows_of(n):
    X = np.array([[float(i), float((i * 3) % 4)] for i in range(n)])
    Q = np.array([[a, b] for a in np.arange(-1.0, n + 1, 0.75) for b in (0.0, 3.0)])
    return X, Q


def independent(f, name, Q, P, ctx):
    """A row alone, and the rows in another order or batch, give the same result."""
    fn = getattr(f, name)
    idx = list(range(0, len(Q), 3))
    for i in idx:
        with impl(name):
            r = fn(Q[i:i + 1])
        require(np.array_equal(r[0], P[i]), "%s of row %d alone differs", name, i)
    with impl(name):
        R = fn(Q[::-1])
    require(np.array_equal(R[::-1], P), "%s depends on the order of the rows", name)
    with impl(name):
        R = fn(Q[2:7])
    require(np.array_equal(R, P[2:7]), "%s depends on the other rows", name)
    ctx.add("transitions", len(idx) + 2)


def clf(case, ctx):
    from wildwood import ForestClassifier
    _, lab, ovr, agg, dirichlet, al, cont, strat = case[:8]
    n = len(lab)
    X, Q = rows_of(n)
    y, raw = labels(lab, al, cont)
    cls = sorted(set(raw))
    K = len(cls)
    ne = case[8] if len(case) > 8 else 3
    kw = dict(n_estimators=ne, random_state=sum(lab) + K, aggregation=agg, dirichlet=dirichlet, max_features=None,
              multiclass="ovr" if ovr else "multinomial")
    cat = [False, False]
    if strat != "b":
        kw.update(cat_split_strategy=strat)
        cat = [False, True]
    kw["categorical_features"] = cat
    with impl("fit"):
        f = ForestClassifier(**kw)
        f.fit(X, y)
    with impl("classes_"):
        got = f.classes_
    require(list(got) == cls, "classes_ is %s instead of %s", list(got), cls)
    with impl("predict_proba"):
        P = np.asarray(f.predict_proba(Q))
    require(P.shape == (len(Q), K), "predict_proba has shape %s", P.shape)
    require(np.all(P >= 0) and np.all(P <= 1 + 1e-6) and np.allclose(P.sum(axis=1), 1.0, atol=1e-5),
            "rows of predict_proba are not probability vectors: %s", P[np.argmax(abs(P.sum(axis=1) - 1))].tolist())
    real_ovr = ovr and K > 2
    with impl("predict_proba_trees"):
        PT = np.asarray(f.predict_proba_trees(Q))
    nt = ne * K if real_ovr else ne
    require(PT.shape[0] == nt and PT.shape[1] == len(Q), "predict_proba_trees has shape %s with %d trees", PT.shape, nt)
    PT = PT.astype(np.float64)
    if real_ovr:
        S = np.stack([PT[k * ne:(k + 1) * ne, :, 1].sum(axis=0) for k in range(K)], axis=1)
        tot = S.sum(axis=1, keepdims=True)
        ok = tot[:, 0] > 1e-5
        require(np.allclose(P[ok], (S / np.where(tot > 0, tot, 1.0))[ok], atol=1e-5),
                "one-versus-rest scores are not the normalised sums of each class")
    else:
        require(np.allclose(P, PT.mean(axis=0), atol=1e-6), "predict_proba is not the mean of the trees")
    # every tree is trained on the right labels (leaf statistics recomputed from its in-bag samples)
    if not agg:
        enc = getattr(f, "_encoder", None)
        try:
            if enc is None:
                raise SeamError("encoder")
            fbq, fbx = enc.transform(Q), enc.transform(X)
            Xb, rows = seam.bitarray_to_array(fbx).tolist(), seam.bitarray_to_array(fbq).tolist()
            seeds = seam.forest_seeds(f)
            for t, tree in enumerate(f.trees):
                tr, va = seam.tree_bags(tree)
                cnt = seam.ref_bootstrap(seeds[t], n)
                if sorted(tr) != [i for i, c in enumerate(cnt) if c > 0]:
                    raise SeamError("bootstrap differs from the reference")
                yy = [float(cls.index(v)) for v in raw] if not real_ovr else [float(v == cls[t // ne]) for v in raw]
                c = dict(kind="clf", ncls=2 if real_ovr else K, X=Xb, cat=cat, y=yy, w=[float(max(1, c)) for c in cnt],
                         tr=tr, va=va, cfg=dict(aggregation=False, dirichlet=dirichlet))
                g = T.from_forest_tree(tree, c)
                preds = g.preds()
                for i, r in enumerate(rows):
                    p = preds[M.leaf_of(g.N, r)]
                    if p is not None:
                        require(np.allclose(PT[t, i], p, atol=2e-6), "tree %d (class %s) predicts %s at row %d, its samples give %s",
                                t, cls[t // ne] if real_ovr else "all", PT[t, i].tolist(), i, p)
                ctx.add("trees_recomputed")
        except SeamError as e:
            ctx.skip(str(e))
    with impl("predict"):
        L = f.predict(Q)
    require(len(L) == len(Q), "predict returned %d labels", len(L))
    for i in range(len(Q)):
        require(L[i] in cls, "predict returned the unknown label %r", L[i])
        k = cls.index(L[i])
        require(P[i, k] >= P[i].max() - 1e-12, "row %d: predict gives %r, the probabilities are %s for %s",
                i, L[i], P[i].tolist(), cls)
    ref = np.asarray(y)
    Ld = np.asarray(L)
    if cont != "cat":
        kind = {"O": "text", "U": "text"}
        require(kind.get(Ld.dtype.kind, Ld.dtype.kind) == kind.get(ref.dtype.kind, ref.dtype.kind), "labels of type %s are predicted with type %s", ref.dtype, Ld.dtype)
    independent(f, "predict_proba", Q, P, ctx)
    # the same data with labels 0..K-1 gives the same forest
    if al != "int" or cont != "np":
        with impl("fit"):
            f2 = ForestClassifier(**kw)
            f2.fit(X, np.array([cls.index(v) for v in raw]))
            P2 = f2.predict_proba(Q)
        require(np.array_equal(P, P2), "labels %s and 0..%d give different probabilities", cls, K - 1)
    ctx.state((tuple(lab), ovr, agg, dirichlet, al, cont, strat))
    ctx.outcome(np.round(P, 6).tobytes())
    ctx.add("traces")


def reg(case, ctx):
    from wildwood import ForestRegressor
    _, lab, agg, sc = case[:4]
    ne = case[4] if len(case) > 4 else 3
    n = len(lab)
    X, Q = rows_of(n)
    y = np.array(lab, dtype=np.float64) * sc
    with impl("fit"):
        f = ForestRegressor(n_estimators=ne, random_state=sum(lab), aggregation=agg, max_features=None,
                            categorical_features=[False, False])
        f.fit(X, y)
    with impl("predict"):
        P = np.asarray(f.predict(Q))
    require(P.shape == (len(Q),), "predict has shape %s", P.shape)
    with impl("predict_trees"):
        PT = np.asarray(f.predict_trees(Q), dtype=np.float64)
    require(PT.shape == (ne, len(Q)), "predict_trees has shape %s", PT.shape)
    tol = 1e-5 * max(abs(y).max(), 1e-12)
    require(np.all(np.abs(P - PT.mean(axis=0)) <= tol), "predict is not the mean of the trees")
    require(P.min() >= y.min() - tol and P.max() <= y.max() + tol, "predictions %s..%s leave the range %s..%s of the labels",
            P.min(), P.max(), y.min(), y.max())
    require(PT.min() >= y.min() - tol and PT.max() <= y.max() + tol, "a tree leaves the range of the labels")
    independent(f, "predict", Q, P, ctx)
    ctx.state((tuple(lab), agg, sc))
    ctx.outcome(np.round(P / sc, 5).tobytes())
    ctx.add("traces")


def check(case, ctx):
    return dict(clf=clf, reg=reg)[case[0]](case, ctx)
