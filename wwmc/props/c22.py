"""C22: units, names and storage do not matter."""
import itertools

import numpy as np
import pandas as pd

from wwmc import forestcheck
from wwmc.common import SeamError, impl, require

ASSUMPTIONS = [
    "columns with at most max_bins distinct values are recoded by any strictly increasing map, columns with more by "
    "powers of two only (their thresholds are interpolated quantiles)",
    "labels, weights, dirichlet and step are scaled by powers of two, for which float32 arithmetic commutes with the scaling",
    "classes and categories are renamed in an order-preserving way (their order breaks ties)",
]
NAN = float("nan")
DESIGNS = {
    # continuous columns
    "cc": ([[0, 0], [1, 2], [2, 1], [0, 2], [1, 0], [2, 2], [3, 1]], [False, False]),
    "cn": ([[0, NAN], [1, 2], [NAN, 1], [2, 2], [1, NAN], [0, 2], [3, 0]], [False, False]),
    # one categorical column
    "ck": ([[0, 0], [1, 2], [2, 1], [0, 2], [1, 0], [2, 2], [3, 1]], [False, True]),
    "kk": ([[0, 0], [1, 2], [2, 1], [0, 1], [1, 0], [2, 2], [3, 1]], [True, True]),
}
CFG = {
    "clf": dict(kind="clf", aggregation=True, dirichlet=0.5, step=1.0),
    "clf-noagg": dict(kind="clf", aggregation=False, dirichlet=0.25, step=1.0, criterion="entropy"),
    "ovr": dict(kind="clf", aggregation=True, dirichlet=0.5, step=0.5, multiclass="ovr"),
    "mul": dict(kind="clf", aggregation=True, dirichlet=0.5, step=2.0, multiclass="multinomial", cat_split_strategy="all"),
    "bal": dict(kind="clf", aggregation=True, dirichlet=0.5, step=1.0, class_weight="balanced"),
    "reg": dict(kind="reg", aggregation=True, step=0.25),
    "reg-noagg": dict(kind="reg", aggregation=False, step=1.0),
}
# strictly increasing maps of the values of a continuous column
MONO = {
    "exp": lambda v: float(np.exp(v)), "cube": lambda v: v ** 3 - 5.0, "tiny": lambda v: v * 2.0 ** -80,
    "huge": lambda v: v * 1e30 - 1e30, "inverse": lambda v: -1.0 / (v + 1.0), "shift": lambda v: v + 1e6,
    "uneven": lambda v: [0.0, 0.001, 900.0, 1e7][int(v)],
}
NAMES_OF = {"int": [3, 40, 500, 6000], "neg": [-7, -2, 0, 11], "float": [-2.0, 0.0, 4.0, 9.0], "str": ["Aa", "a", "ab", "b"],
            "bool": [False, True], "uint8": [0, 100, 200, 255]}


def setup(tier):
    pass


def cases(tier):
    th = tier == "thorough"
    n = 7
    for cfg in CFG:
        kind = CFG[cfg]["kind"]
        for d in DESIGNS:
            if cfg in ("ovr", "mul"):
                labs = (l for l in itertools.product((0, 1, 2), repeat=5 if not th else 6) if len(set(l)) == 3)
                labs = (tuple(l) + (0, 1, 2)[: n - len(l)] for l in labs)
            elif kind == "clf":
                labs = (l for l in itertools.product((0, 1), repeat=n) if len(set(l)) == 2)
            else:
                labs = (tuple(l) + (1.0, 0.0, 3.0)[: n - len(l)] for l in itertools.product((0.0, 1.0, 3.0), repeat=5 if th else 4))
            for i, lab in enumerate(labs):
                if not th and i % {"clf": 2, "clf-noagg": 2, "reg": 1, "reg-noagg": 1}.get(cfg, 4):
                    continue
                yield ["units", cfg, d, list(lab)]
    for cfg in CFG:
        for n in (12, 33, 60) + ((120, 400) if th else ()):
            for mb in (4, 5, 16, 256):
                for s in range(4 if th else 2):
                    yield ["many", cfg, n, mb, s]


def grid(X, cat):
    cols = []
    for j in range(len(X[0])):
        vals = sorted({r[j] for r in X if r[j] == r[j]})
        if any(r[j] != r[j] for r in X):
            vals.append(NAN)
        cols.append(vals)
    return [list(r) for r in itertools.product(*cols)]


def arr(X, maps):
    """maps[j]: value -> value"""
    return np.array([[m(v) if v == v else NAN for v, m in zip(r, maps)] for r in X], dtype=np.float64)


def observe(cfg, X, y, w, Q, cat, **over):
    kw = dict(CFG[cfg])
    kind = kw.pop("kind")
    kw.update(over)
    if cat is not None:
        kw["categorical_features"] = cat
    f = forestcheck.fit_forest("clf" if kind == "clf" else "reg", X, y, w, n_estimators=2, random_state=11,
                               max_features=None, **kw)
    with impl("predictions"):
        out = dict(predict=np.asarray(f.predict(Q)), apply=np.asarray(f.apply(Q)))
        if kind == "clf":
            out["proba"] = np.asarray(f.predict_proba(Q))
            out["classes"] = np.asarray(f.classes_)
        if hasattr(f, "get_nodes"):
            out["n_nodes"] = [len(f.get_nodes(t)) for t in range(len(f.trees))]
    return out


def same(a, b):
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


def compare(base, got, what, names=None, scale=1.0, exact=True, atol=0.0):
    if "n_nodes" in base and "n_nodes" in got:
        require(base["n_nodes"] == got["n_nodes"], "%s: trees of %s nodes instead of %s", what, got["n_nodes"], base["n_nodes"])
    require(np.array_equal(base["apply"], got["apply"]), "%s: samples are in other leaves", what)
    if "proba" in base:
        require(same(base["proba"], got["proba"]), "%s: probabilities %s instead of %s", what, got["proba"].tolist()[:3],
                base["proba"].tolist()[:3])
        want = base["predict"] if names is None else np.array([names[int(v)] for v in base["predict"].tolist()])
        require(got["predict"].tolist() == want.tolist(), "%s: predicted classes %s instead of %s", what,
                got["predict"].tolist(), want.tolist())
    else:
        require(same(base["predict"] * scale, got["predict"]), "%s: predictions %s instead of %s", what,
                (got["predict"] / scale).tolist()[:6], base["predict"].tolist()[:6])


def scalings(cfg, y, w, cat):
    """(name, y, w, parameters, factor of the predictions)"""
    c = CFG[cfg]
    for k in (-24, -3, 2, 16):
        s = 2.0 ** k
        over = dict(step=c["step"] / s)
        if c["kind"] == "clf":
            over["dirichlet"] = c["dirichlet"] * s
        if c.get("class_weight") is None:
            yield "weights times %g, step / %g, dirichlet times %g" % (s, s, s), y, [v * s for v in w], over, 1.0
        if c["kind"] == "reg":
            yield "labels times %g, step / %g" % (s, s * s), [v * s for v in y], w, dict(step=c["step"] / (s * s)), s
            # categories are ordered by their mean label, hence ties may be broken the other way there
            if not any(cat):
                yield "labels times %g, step / %g" % (-s, s * s), [-v * s for v in y], w, dict(step=c["step"] / (s * s)), -s


def check(case, ctx):
    if case[0] == "many":
        return check_many(case, ctx)
    _, cfg, d, lab = case
    X, cat = DESIGNS[d]
    kind = CFG[cfg]["kind"]
    n = len(X)
    Q = grid(X, cat)
    ident = lambda v: v
    y = np.array(lab, dtype=float if kind == "reg" else int)
    w = [1.0 + (i % 3) for i in range(n)]
    W = np.array(w)
    base = observe(cfg, arr(X, [ident] * 2), y, W, arr(Q, [ident] * 2), cat)
    k = 0

    def one(what, Xt, yt, wt, Qt, cat_, names=None, scale=1.0, **over):
        nonlocal k
        k += 1
        compare(base, observe(cfg, Xt, yt, wt, Qt, cat_, **over), what, names, scale)

    # recoded columns
    for name, m in MONO.items():
        maps = [m if not c else ident for c in cat]
        if all(cat):
            break
        one("continuous columns recoded by " + name, arr(X, maps), y, W, arr(Q, maps), cat)
    if not all(cat):
        other = [MONO["exp"] if not cat[0] else ident, MONO["huge"] if not cat[1] else ident]
        one("columns recoded by exp and huge", arr(X, other), y, W, arr(Q, other), cat)
    if not np.isnan(arr(X, [ident] * 2)).any():
        for dt in ("int64", "int16", "uint8", "float32"):
            one("X given as " + dt, arr(X, [ident] * 2).astype(dt), y, W, arr(Q, [ident] * 2).astype(dt), cat)
    # renamed categories
    for name in ("int", "float", "neg", "str"):
        if not any(cat):
            break
        v = NAMES_OF[name]
        if name != "str":
            maps = [(lambda x: float(v[int(x)])) if c else ident for c in cat]
            one("categories renamed to %s" % v, arr(X, maps), y, W, arr(Q, maps), cat)
        dfs = []
        for Z in (X, Q):
            dfs.append(pd.DataFrame({("n%d" % j): pd.Categorical([v[int(r[j])] for r in Z]) if c else
                                     np.array([r[j] for r in Z], dtype=float) for j, c in enumerate(cat)}))
        one("dataframe with categories %s" % v, dfs[0], y, W, dfs[1], None)
    # renamed columns, other index
    if not any(cat):
        for cols, idx in ((["b", "a"], None), ([5, 2], [10 - i for i in range(n)])):
            A = pd.DataFrame(arr(X, [ident] * 2), columns=cols, index=idx)
            one("columns named %s" % cols, A, y, W, pd.DataFrame(arr(Q, [ident] * 2), columns=cols), cat)
    # renamed classes
    if kind == "clf":
        for name, v in NAMES_OF.items():
            if max(lab) >= len(v):
                continue
            one("classes renamed to %s" % v, arr(X, [ident] * 2), np.array([v[i] for i in lab]), W, arr(Q, [ident] * 2), cat,
                names=v)
        one("classes in a list", arr(X, [ident] * 2), list(lab), W, arr(Q, [ident] * 2), cat)
        one("classes in a series", arr(X, [ident] * 2), pd.Series(lab, index=range(5, 5 + n)), W, arr(Q, [ident] * 2), cat)
    # scaled weights, labels, step and dirichlet
    for what, yt, wt, over, scale in scalings(cfg, y.tolist(), w, cat):
        one(what, arr(X, [ident] * 2), np.array(yt, dtype=y.dtype), np.array(wt), arr(Q, [ident] * 2), cat, scale=scale, **over)
    ones = observe(cfg, arr(X, [ident] * 2), y, np.ones(n), arr(Q, [ident] * 2), cat)
    compare(ones, observe(cfg, arr(X, [ident] * 2), y, None, arr(Q, [ident] * 2), cat), "no weights instead of ones")
    ctx.add("transitions", k + 2)
    ctx.add("traces", k + 2)
    ctx.state((cfg, d, str(base["apply"].tolist())))
    ctx.outcome(base["predict"].tobytes())


def check_many(case, ctx):
    """more rows and more distinct values than bins"""
    _, cfg, n, mb, s = case
    kind = CFG[cfg]["kind"]
    K = 3 if cfg in ("ovr", "mul") else 2
    X = np.array([[float((i * 7919 + s) % 101), float((i * i + s) % 37) / 4.0] for i in range(n)])
    y = np.array([(i * i // 3 + s) % K for i in range(n)])
    y = y.astype(float) * 1.5 if kind == "reg" else y
    w = [1.0 + (i % 3) for i in range(n)]
    W = np.array(w)
    over = dict(max_bins=mb)
    cat = [False, False]
    base = observe(cfg, X, y, W, X, cat, **over)
    k = 0
    for e in (-60, -7, 1, 20, 90):
        k += 1
        compare(base, observe(cfg, X * 2.0 ** e, y, W, X * 2.0 ** e, cat, **over), "columns times 2**%d" % e)
    compare(base, observe(cfg, np.asfortranarray(X), y, W, X.astype(np.float32), cat, **over), "memory layout")
    compare(base, observe(cfg, pd.DataFrame(X), y, W, pd.DataFrame(X), cat, **over), "dataframe")
    for what, yt, wt, o, scale in scalings(cfg, y.tolist(), w, cat):
        k += 1
        compare(base, observe(cfg, X, np.array(yt, dtype=y.dtype), np.array(wt), X, cat, **dict(over, **o)), what,
                scale=scale)
    if kind == "clf":
        v = NAMES_OF["str"]
        compare(base, observe(cfg, X, np.array([v[i] for i in y]), W, X, cat, **over), "renamed classes", names=v)
    ctx.add("transitions", k + 3)
    ctx.add("traces", k + 3)
    ctx.state(case)
