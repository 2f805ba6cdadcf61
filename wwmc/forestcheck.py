"""Forest-level versions of the tree oracles, through the public interface."""
import numpy as np

from wwmc import model as M, seam, treecheck as T
from wwmc.common import Violation, SeamError, require, impl


def fit_forest(kind, X, y, w=None, **kw):
    from wildwood import ForestClassifier, ForestRegressor
    cls = ForestClassifier if kind == "clf" else ForestRegressor
    with impl("fit"):
        f = cls(**kw)
        f.fit(X, y, sample_weight=w)
    return f


def tree_case(f, kind, t, tree, Xb, y, w, cfg, ncls=2):
    """The reference input of one tree of a fitted forest."""
    tr, va = seam.tree_bags(tree)
    seeds = seam.forest_seeds(f)
    cnt = seam.ref_bootstrap(seeds[t], len(y))
    if sorted(tr) != [i for i, c in enumerate(cnt) if c > 0]:
        raise SeamError("bootstrap differs from the reference")
    ww = [w[i] * max(1, cnt[i]) for i in range(len(y))]
    return dict(kind=kind, ncls=ncls, X=Xb, cat=[bool(c) for c in f.is_categorical_], y=y, w=ww, tr=tr, va=va,
                cfg=cfg)


def aggregation(case, ctx):
    _, kind, n, lab, s = case
    X = np.array([[float(i), float((i * 2) % 5)] for i in range(n)])
    y = [float(v) for v in lab]
    w = [1.0 + (i % 2) for i in range(n)]
    cfg = dict(step=1.0, aggregation=True)
    kw = dict(n_estimators=2, random_state=s, max_features=None, categorical_features=[False, False])
    if kind == "clf":
        cfg["dirichlet"] = 0.5
    f = fit_forest(kind, X, np.array(lab), np.array(w), **kw)
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder")
    Q = np.array([[a, b] for a in np.arange(-1, n + 1, 0.5) for b in (0.0, 2.0, 4.0)])
    with impl("transform"):
        Xb = seam.bitarray_to_array(enc.transform(X)).tolist()
        fbq = enc.transform(Q)
    rows = seam.bitarray_to_array(fbq).tolist()
    tot = 0
    for t, tree in enumerate(f.trees):
        c = tree_case(f, kind, t, tree, Xb, y, w, cfg)
        g = T.from_forest_tree(tree, c)
        T.check_aggregation(g, ctx, rows=rows, fb=fbq)
        tot = tot + T.rows_pred(g, rows, fbq)
        ctx.add("traces")
    with impl("predict"):
        P = f.predict_proba(Q) if kind == "clf" else f.predict(Q).reshape(-1, 1)
    require(np.allclose(P, tot / len(f.trees), atol=1e-6), "the forest prediction is not the mean of its trees")


def _enc(f):
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder")
    return enc


def partition(case, ctx):
    """Routing through the public interface: missing and unknown values, unseen values."""
    import pandas as pd
    _, kind, cat, miss, agg, s = case
    n = 12
    num = [float((5 * i) % 7) for i in range(n)]
    ca = ["abc"[(i * i) % 3] for i in range(n)]
    if miss & 1:
        num[3] = np.nan
    if miss & 2:
        ca[4] = None
    y = [float(i % 3 == 0) for i in range(n)]
    cols = {0: {"u": num, "v": num[::-1]}, 1: {"u": ca, "v": ca[::-1]}, 2: {"u": num, "v": ca}}[cat]
    X = pd.DataFrame(cols)
    nums = [np.nan, -5.0, 0.0, 1.5, 3.0, 6.0, 100.0]
    cas = [None, "a", "b", "c", "zz"]
    if not miss & 4:
        nums, cas = nums[1:], cas[1:]
    axes = {0: (nums, nums), 1: (cas, cas), 2: (nums, cas)}[cat]
    Q = pd.DataFrame([(a, b) for a in axes[0] for b in axes[1]], columns=["u", "v"])
    kw = dict(n_estimators=2, random_state=s, max_features=None, aggregation=agg, cat_min_categories=4,
              categorical_features={0: [False, False], 1: [True, True], 2: [False, True]}[cat])
    f = fit_forest(kind, X, np.array(y if kind == "reg" else [int(v) for v in y]), None, **kw)
    enc = _enc(f)
    with impl("transform"):
        Xb = seam.bitarray_to_array(enc.transform(X)).tolist()
        fbq = enc.transform(Q)
    rows = seam.bitarray_to_array(fbq).tolist()
    with impl("apply"):
        A = np.asarray(f.apply(Q))
        AX = np.asarray(f.apply(X))
    require(A.shape == (2, len(Q)), "apply returned the shape %s", A.shape)
    for t, tree in enumerate(f.trees):
        c = tree_case(f, kind, t, tree, Xb, y, [1.0] * n, dict(aggregation=agg))
        g = T.from_forest_tree(tree, c)
        T.check_partition(g, ctx, rows=rows, fb=fbq)
        for i, row in enumerate(rows):
            require(A[t, i] == M.leaf_of(g.N, row), "apply sends row %s to %s", Q.iloc[i].tolist(), A[t, i])
        for i in c["tr"]:
            require(AX[t, i] == g.leaf_tr[i], "in-bag sample %d ends up in leaf %s", i, AX[t, i])
        ctx.add("traces")


def node_predictions(case, ctx):
    _, kind, n, lab, wmode, agg = case
    X = np.array([[float(i), float((2 * i) % 3)] for i in range(n)])
    y = [float(v) for v in lab]
    w = [[1.0] * n, [float(1 + i % 3) for i in range(n)], [0.25 * (1 + i) for i in range(n)]][wmode]
    kw = dict(n_estimators=3, random_state=sum(lab), max_features=None, aggregation=agg,
              categorical_features=[False, True])
    cfg = dict(aggregation=agg)
    if kind == "clf":
        kw["dirichlet"] = 0.25
        cfg["dirichlet"] = 0.25
    f = fit_forest(kind, X, np.array(lab), None if wmode == 0 else np.array(w), **kw)
    enc = _enc(f)
    Q = np.array([[a, float(b)] for a in np.arange(-1, n + 1, 1.0) for b in range(4)])
    with impl("transform"):
        Xb = seam.bitarray_to_array(enc.transform(X)).tolist()
        fbq = enc.transform(Q)
    rows = seam.bitarray_to_array(fbq).tolist()
    tot = 0
    for t, tree in enumerate(f.trees):
        c = tree_case(f, kind, t, tree, Xb, y, w, cfg)
        g = T.from_forest_tree(tree, c)
        T.check_node_predictions(g, ctx, rows=rows, fb=fbq)
        if not agg:
            preds = g.preds()
            tot = tot + np.array([preds[M.leaf_of(g.N, r)] for r in rows])
    if not agg:
        with impl("predict"):
            P = f.predict_proba(Q) if kind == "clf" else f.predict(Q).reshape(-1, 1)
        require(np.allclose(P, tot / len(f.trees), atol=1e-5),
                "without aggregation the forest does not predict the mean of the leaves")
