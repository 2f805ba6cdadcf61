"""C15: invalid parameters are rejected, accepted ones are kept and honoured."""
import itertools
import math

import numpy as np
import pandas as pd

from wwmc import seam, treecheck as T, forestcheck
from wwmc.common import SeamError, Violation, require, impl
from wwmc.props.c14 import observe

ASSUMPTIONS = ["booleans given for integers, integers given for floats and numpy scalars are not judged",
               "options handed to the encoder may be refused as late as fit"]
NAN, INF = float("nan"), float("inf")
STR = ["x", "", "GINI"]
BASE = dict(n_estimators=2, random_state=3)
# parameter: (valid, invalid, lazily validated)
COMMON = {
    "n_estimators": ([1, 2, 5], [0, -1, 2.0, "2", None, [2]], False),
    "step": ([1e-6, 0.5, 1.0, 100.0], [0.0, -1.0, -1e-9, "1", None, NAN, INF, -INF, [1.0]], False),
    "aggregation": ([True, False], ["True", None, 2, 1.5, []], False),
    "max_depth": ([None, 2, 3, 1000], [1, 0, -1, 2.0, "2", [2]], False),
    "min_samples_split": ([2, 3, 100], [1, 0, -2, 2.5, "2", None], False),
    "min_samples_leaf": ([1, 2, 100], [0, -1, 1.5, "1", None], False),
    "max_bins": ([3, 4, 256, 10000], [2, 1, 0, -5, 3.5, "4", None], False),
    "max_features": ([None, "auto", "sqrt", "log2", 1, 2, 3, 0.01, 0.5, 1.0], [0, -1, "x", "AUTO", 0.0, -0.5, 1.5, NAN, [1], {}], False),
    "n_jobs": ([1, 2, 100, -1], [0, -2, -100, 1.5, "1", None], False),
    "random_state": ([0, 1, 2 ** 31], [-1, "x", 1.5, [1]], False),
    "verbose": ([False], ["x", None, 2, 0.5], False),
    "handle_unknown": (["error", "consider_missing"], ["x", None, 1, ""], True),
    "cat_min_categories": (["log", "sqrt", 4, 100], ["x", 3, 2, 0, -1, None, 4.5], True),
    "subsample": ([None, 50000, 200000], [0, -1, 100, 49999, "x"], True),
    "categorical_features": ([None, [True, False, False], [0], [2, 1], (False, False, False)],
                             [[True], [True] * 4, [3], [-1], [0, 3], [0.5], ["a"], "a", [[True, False, True]]], True),
}
CLF = dict(COMMON, criterion=(["gini", "entropy"], ["mse", "x", "Gini", None, 3], False), loss=(["log"], ["mse", "x", None, 2], False),
           dirichlet=([1e-9, 0.1, 0.5, 10.0], [-0.1, -1e-12, "0.5", None, NAN, INF], False),
           class_weight=([None, "balanced"], ["x", 1, {0: 1.0}, [1]], False),
           multiclass=(["multinomial", "ovr"], ["x", None, 1, "OVR"], False),
           cat_split_strategy=(["binary", "all", "random"], ["x", None, 1], False))
REG = dict(COMMON, criterion=(["mse"], ["gini", "entropy", "x", None, 3], False), loss=(["mse"], ["log", "x", None, 2], False))
ENC = {
    "max_bins": COMMON["max_bins"], "subsample": COMMON["subsample"], "cat_min_categories": COMMON["cat_min_categories"],
    "handle_unknown": COMMON["handle_unknown"],
    "is_categorical": ([None, [True, False, False], np.array([False, False, True])], [[[True]], "abc", 3, np.array([[True]])], False),
}
FROZEN = {"n_estimators": [3, 5, 0, "x"], "random_state": [4, 0, -1, None], "multiclass": ["ovr", "x"], "cat_split_strategy": ["all", "x"]}
X0 = np.array([[float((3 * i) % 10), float(i % 3), float((i * i) % 7)] for i in range(12)])
YC = np.array([(i * i // 2) % 3 for i in range(12)])
YR = np.array([float((5 * i) % 9) for i in range(12)])


def setup(tier):
    from wildwood import ForestClassifier, ForestRegressor  # noqa: F401


def table(cls):
    return dict(clf=CLF, reg=REG, enc=ENC)[cls]


def klass(cls):
    from wildwood import ForestClassifier, ForestRegressor
    from wildwood.preprocessing import Encoder
    return dict(clf=ForestClassifier, reg=ForestRegressor, enc=Encoder)[cls]


def base(cls):
    return {} if cls == "enc" else dict(BASE)


def fit(o, cls):
    return o.fit(X0) if cls == "enc" else o.fit(X0, YR if cls == "reg" else YC)


def digest(o, cls):
    if cls == "enc":
        return seam.bitarray_to_array(o.transform(X0)).tobytes()
    return observe(o, X0)


def cases(tier):
    th = tier == "thorough"
    for cls in ("clf", "reg", "enc"):
        for p, (good, bad, _) in table(cls).items():
            for i in range(len(bad)):
                for route in ("ctor", "attr", "set_params", "multi"):
                    for st in ((0, 1) if route != "ctor" else (0,)):
                        yield ["bad", cls, p, i, route, st]
            for i in range(len(good)):
                for route in ("ctor", "attr", "set_params", "clone"):
                    for st in ((0, 1) if route in ("attr", "set_params") else (0,)):
                        yield ["good", cls, p, i, route, st]
    for cls in ("clf", "reg"):
        for p, vals in FROZEN.items():
            if p in table(cls):
                for i in range(len(vals)):
                    for route in ("attr", "set_params"):
                        yield ["frozen", cls, p, i, route]
        yield ["unknown", cls]
    # two parameters at once
    for cls in ("clf", "reg"):
        T_ = table(cls)
        for p, q in itertools.permutations(sorted(T_), 2):
            yield ["pair", cls, p, q]
    for cls in ("clf", "ovr", "reg"):
        for name in DATA:
            yield ["data", cls, name]
        for name in QUERY:
            for st in (0, 1):
                yield ["query", cls, name, st]
    for name in QUERY:
        yield ["encdata", name]
    for kind in ("clf", "reg", "ovr"):
        for agg, step, dirich, md, mss, msl, crit, strat in itertools.product(
                (True, False), (1.0, 0.2), (0.5, 0.05), (None, 2, 3), (2, 5), (1, 2), ("gini", "entropy"), ("binary", "all", "random")):
            if kind == "reg" and (dirich, crit, strat) != (0.5, "gini", "binary"):
                continue
            if not agg and step != 1.0:
                continue
            if not th and kind == "ovr" and strat == "random":
                continue
            yield ["honour", kind, agg, step, dirich, md, mss, msl, crit, strat]
    for mb in (3, 4, 5, 8, 9, 255, 256, 257, 500):
        for cmc in ("log", "sqrt", 4, 10):
            for hu in ("error", "consider_missing"):
                for cls in ("clf", "reg"):
                    yield ["enc", cls, mb, cmc, hu]


def same(a, b):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return type(a) is type(b) and a == b


def refused(fn, what, kinds=(ValueError,)):
    try:
        fn()
    except kinds:
        return True
    except Exception as e:  # noqa: BLE001
        raise Violation("%s raised %s instead of %s: %s" % (what, type(e).__name__, kinds[0].__name__, str(e)[:200]))
    return False


def bad(case, ctx):
    _, cls, p, i, route, st = case
    good, bads, lazy = table(cls)[p]
    v = bads[i]
    K = klass(cls)
    what = "%s=%r (%s)" % (p, v, route)
    if cls == "enc":
        lazy = False
    if route == "ctor":
        kw = base(cls)
        kw[p] = v

        def both():
            fit(K(**kw), cls)
        r = refused((lambda: K(**kw)) if not lazy else both, what)
        require(r, "%s is accepted", what)
        return
    g0 = good[-1] if p not in ("verbose", "n_jobs") else good[0]
    if p == "n_estimators":
        g0 = 2
    kw = base(cls)
    kw[p] = g0
    with impl("constructor"):
        o = K(**kw)
    if st:
        if p in FROZEN:
            return
        with impl("fit"):
            fit(o, cls)
        d0 = digest(o, cls)
    before = o.get_params()

    def act():
        if route == "attr":
            setattr(o, p, v)
        elif route == "set_params":
            o.set_params(**{p: v})
        else:
            o.set_params(**{"verbose": False, p: v})
    r = refused(act, what)
    if not r and lazy:
        r = refused(lambda: fit(o, cls), "fit after " + what)
        require(r, "%s is accepted", what)
        return
    require(r, "%s is accepted", what)
    after = o.get_params()
    for k in before:
        require(same(before[k], after[k]), "the refused %s changed %s from %r to %r", what, k, before[k], after[k])
    require(same(getattr(o, p), before[p]), "the refused %s changed the attribute to %r", what, getattr(o, p))
    if st:
        require(digest(o, cls) == d0, "the refused %s changed the fitted object", what)
    else:
        with impl("fit after a refused parameter"):
            fit(o, cls)
            ref = K(**kw)
            fit(ref, cls)
        require(digest(o, cls) == digest(ref, cls), "the refused %s changed the next fit", what)


def good(case, ctx):
    from sklearn.base import clone
    _, cls, p, i, route, st = case
    v = table(cls)[p][0][i]
    K = klass(cls)
    kw = base(cls)
    kw[p] = v
    what = "%s=%r (%s)" % (p, v, route)
    if st and p in FROZEN:
        return
    with impl(what):
        if route == "ctor":
            o = K(**kw)
        elif route == "clone":
            o = clone(K(**kw))
        else:
            o = K(**base(cls))
            if st:
                fit(o, cls)
            if route == "attr":
                setattr(o, p, v)
            else:
                require(o.set_params(**{p: v}) is o, "set_params does not return the object")
    exp = v if not (cls == "enc" and p == "is_categorical" and v is not None) else np.array(v, dtype=bool)
    for when in ("", " after fit"):
        got = o.get_params()[p]
        require(same(got, exp), "%s%s: get_params gives %r", what, when, got)
        require(same(getattr(o, p), exp), "%s%s: the attribute is %r", what, when, getattr(o, p))
        if not when:
            with impl("fit with " + what):
                fit(o, cls)
    with impl("fit with " + what):
        ref = K(**kw)
        fit(ref, cls)
    require(digest(o, cls) == digest(ref, cls), "%s: the fit differs from the one of a new object", what)
    with impl("clone"):
        c = clone(o)
    for k, x in o.get_params().items():
        require(same(c.get_params()[k], x), "cloning changes %s from %r to %r", k, x, c.get_params()[k])
    if cls != "enc":
        with impl("fit of the clone"):
            fit(c, cls)
        require(digest(c, cls) == digest(ref, cls), "%s: the clone fits another forest", what)
    d = dict(o.get_params())
    for k, x in K(**base(cls)).get_params().items():
        if k != p:
            require(same(d[k], x), "%s changed %s to %r", what, k, d[k])
    if p == "n_estimators":
        require(len(o.trees) == v * 1, "%d trees for n_estimators=%d", len(o.trees), v)


def frozen(case, ctx):
    _, cls, p, i, route = case
    v = FROZEN[p][i]
    o = klass(cls)(**base(cls))
    with impl("fit"):
        fit(o, cls)
    d0, before = digest(o, cls), o.get_params()
    r = refused(lambda: setattr(o, p, v) if route == "attr" else o.set_params(**{p: v}), "changing %s after fit" % p,
                (ValueError, AttributeError))
    require(r, "%s can be changed after fit", p)
    require(o.get_params() == before and digest(o, cls) == d0, "the refused change of %s after fit changed the forest", p)


def unknown(case, ctx):
    o = klass(case[1])(**base(case[1]))
    require(refused(lambda: o.set_params(nonsense=1), "set_params(nonsense=1)"), "set_params accepts an unknown parameter")
    require(refused(lambda: klass(case[1])(nonsense=1), "constructor", (TypeError,)), "the constructor accepts an unknown parameter")


def pair(case, ctx):
    """Two valid parameters given together in both orders: both are kept."""
    _, cls, p, q = case
    T_ = table(cls)
    vp, vq = T_[p][0][-1], T_[q][0][-1]
    K = klass(cls)
    with impl("set_params"):
        o = K(**base(cls))
        o.set_params(**{p: vp})
        setattr(o, q, vq)
        o2 = K(**dict(base(cls), **{p: vp, q: vq}))
    for a, v in ((p, vp), (q, vq)):
        require(same(getattr(o, a), v) and same(o2.get_params()[a], v), "%s=%r with %s, %s gives %r / %r", a, v, p, q, getattr(o, a), o2.get_params()[a])
    require(all(same(a, b) for a, b in zip(o.get_params().values(), o2.get_params().values())), "setting %s and %s differs from the constructor", p, q)


# ---- data ------------------------------------------------------------------------------------------
def _sparse():
    import scipy.sparse
    return scipy.sparse.csr_matrix(X0)


DATA = {
    "X list": lambda y: (X0.tolist(), y, None), "X 1d": lambda y: (X0[:, 0], y, None), "X 3d": lambda y: (X0[:, :, None], y, None),
    "X series": lambda y: (pd.Series(X0[:, 0]), y, None), "X complex": lambda y: (X0.astype(complex), y, None),
    "X dates": lambda y: (X0.astype("datetime64[s]"), y, None), "X None": lambda y: (None, y, None), "X str": lambda y: ("abcdefghijkl", y, None),
    "X no column": lambda y: (X0[:, :0], y, None), "X no row": lambda y: (X0[:0], y[:0], None),
    "X frame of dates": lambda y: (pd.DataFrame({"a": pd.date_range("2020", periods=12)}), y, None),
    "X sparse": lambda y: (_sparse(), y, None), "X dict": lambda y: ({"a": X0[:, 0]}, y, None),
    "y short": lambda y: (X0, y[:-1], None), "y long": lambda y: (X0, np.r_[y, y[:1]], None), "y twice": lambda y: (X0, np.r_[y, y], None),
    "y 2 columns": lambda y: (X0, np.c_[y, y], None), "y None": lambda y: (X0, None, None), "y empty": lambda y: (X0, y[:0], None),
    "y nan": lambda y: (X0, np.where(np.arange(12) == 3, np.nan, y), None), "y inf": lambda y: (X0, np.where(np.arange(12) == 3, np.inf, y), None),
    "X short": lambda y: (X0[:-1], y, None),
    "w short": lambda y: (X0, y, np.ones(11)), "w long": lambda y: (X0, y, np.ones(13)), "w 2d": lambda y: (X0, y, np.ones((12, 1))),
    "w row": lambda y: (X0, y, np.ones((1, 12))),
    "w nan": lambda y: (X0, y, np.where(np.arange(12) == 0, np.nan, 1.0)), "w inf": lambda y: (X0, y, np.where(np.arange(12) == 11, np.inf, 1.0)),
    "w str": lambda y: (X0, y, ["a"] * 12),
}
QUERY = {
    "fewer columns": lambda: X0[:, :2], "more columns": lambda: np.c_[X0, X0[:, 0]], "one column": lambda: X0[:, :1], "1d": lambda: X0[:, 0], "1d row": lambda: X0[0],
    "3d": lambda: X0[:, :, None], "list": lambda: X0.tolist(), "frame fewer": lambda: pd.DataFrame(X0[:, :2]), "frame more": lambda: pd.DataFrame(np.c_[X0, X0]),
    "None": lambda: None, "complex": lambda: X0.astype(complex), "dates": lambda: X0.astype("datetime64[s]"), "no row": lambda: X0[:0],
    "no column": lambda: X0[:, :0], "series": lambda: pd.Series(X0[:, 0]), "unfitted": lambda: X0, "transposed": lambda: X0.T,
}


def new(cls):
    return klass("reg" if cls == "reg" else "clf")(**dict(base(cls), **({"multiclass": "ovr"} if cls == "ovr" else {})))


def data(case, ctx):
    _, cls, name = case
    y = YR if cls == "reg" else YC
    X, yy, w = DATA[name](y)
    o = new(cls)
    require(refused(lambda: o.fit(X, yy, sample_weight=w), "fit (%s)" % name), "fit accepts the wrong data: %s", name)
    # and the object is still usable
    with impl("fit after a refused fit"):
        o.fit(X0, y)
        ref = new(cls).fit(X0, y)
    require(observe(o, X0) == observe(ref, X0), "a refused fit changes the next one")


def query(case, ctx):
    _, cls, name, st = case
    o = new(cls)
    y = YR if cls == "reg" else YC
    if name != "unfitted":
        with impl("fit"):
            o.fit(X0 if not st else pd.DataFrame(X0, columns=list("abc")), y)
    for fn in ("predict", "apply", "predict_proba", "predict_proba_trees", "predict_trees"):
        if hasattr(o, fn):
            require(refused(lambda: getattr(o, fn)(QUERY[name]()), "%s (%s)" % (fn, name)), "%s accepts the wrong data: %s", fn, name)
            ctx.add("transitions")


def encdata(case, ctx):
    from wildwood.preprocessing import Encoder
    _, name = case
    e = Encoder()
    if name != "unfitted":
        with impl("Encoder.fit"):
            e.fit(X0)
    require(refused(lambda: e.transform(QUERY[name]()), "Encoder.transform (%s)" % name), "Encoder.transform accepts the wrong data: %s", name)


# ---- the values are the ones fit uses ----------------------------------------------------------------
def honour(case, ctx):
    _, kind, agg, step, dirich, md, mss, msl, crit, strat = case
    n = 40
    X = np.array([[float((7 * i) % 40), float((i * i) % 5), float((3 * i) % 4)] for i in range(n)])
    y = [float((i * i // 4 + i // 7) % (3 if kind != "reg" else 9)) for i in range(n)]
    cat = [False, True, False]
    kw = dict(n_estimators=1, random_state=2, aggregation=agg, step=step, max_depth=md, min_samples_split=mss, min_samples_leaf=msl,
              max_features=None, categorical_features=cat)
    cfg = dict(aggregation=agg, step=step, max_depth=md, min_samples_split=mss, min_samples_leaf=msl)
    k = "reg" if kind == "reg" else "clf"
    if k == "clf":
        kw.update(criterion=crit, dirichlet=dirich, cat_split_strategy=strat, multiclass="ovr" if kind == "ovr" else "multinomial")
        cfg.update(criterion=crit, dirichlet=dirich, cat_split_strategy=strat)
    f = forestcheck.fit_forest(k, X, np.array(y), None, **kw)
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder")
    with impl("transform"):
        fb = enc.transform(X)
    Xb = seam.bitarray_to_array(fb).tolist()
    for t, tree in enumerate(f.trees):
        yy = [float(v == t) for v in y] if kind == "ovr" else y
        c = forestcheck.tree_case(f, k, t, tree, Xb, yy, [1.0] * n, cfg, 3 if kind == "clf" else 2)
        g = T.from_forest_tree(tree, c)
        T.check_partition(g, ctx, rows=Xb, fb=fb)
        T.check_node_predictions(g, ctx, rows=Xb, fb=fb)
        if agg:
            T.check_aggregation(g, ctx, rows=Xb, fb=fb, brute_limit=0)
        T.check_splits(g, ctx)
        ctx.add("trees_checked")


def enc(case, ctx):
    """Options handed to the encoder: the forest's bins are those of an encoder with the same options."""
    from wildwood.preprocessing import Encoder
    _, cls, mb, cmc, hu = case
    n = 30
    X = pd.DataFrame({"u": [float((7 * i) % 30) for i in range(n)], "v": ["abcdef"[i % 6] for i in range(n)],
                      "w": [float(i % 5) for i in range(n)], "t": [float(i % 8) for i in range(n)]})
    y = np.array([i % 2 for i in range(n)])
    kw = dict(base(cls), max_bins=mb, cat_min_categories=cmc, handle_unknown=hu)
    with impl("fit"):
        f = klass(cls)(**kw).fit(X, y)
        e = Encoder(max_bins=mb, cat_min_categories=cmc, handle_unknown=hu).fit(X)
    fe = getattr(f, "_encoder", None)
    if fe is None:
        raise SeamError("encoder")
    with impl("transform"):
        a, b = seam.bitarray_to_array(fe.transform(X)), seam.bitarray_to_array(e.transform(X))
    require(np.array_equal(a, b), "the forest bins its data differently from an encoder with max_bins=%s, cat_min_categories=%s", mb, cmc)
    require(list(f.is_categorical_) == list(e.is_categorical_), "the forest types its columns differently from an encoder with the same options")
    Q = X.iloc[:3].assign(v=["a", "zzz", "b"])
    unk = refused(lambda: f.predict(Q), "predict with an unknown category")
    require(unk == (hu == "error"), "handle_unknown=%r but an unknown category is %s", hu, "refused" if unk else "accepted")


def check(case, ctx):
    dict(bad=bad, good=good, frozen=frozen, unknown=unknown, pair=pair, data=data, query=query, encdata=encdata, honour=honour,
         enc=enc)[case[0]](case, ctx)
    ctx.state(repr(case))
    ctx.add("traces")
    ctx.add("transitions")
