"""Data, configurations and observations shared by C09 and C10."""
import numpy as np

from wwmc import seam
from wwmc.common import SeamError


def data(kind, n, var=0):
    i = np.arange(n)
    X = np.stack([(i * 5 + var) % n, (i * i + var) % 4, (i * 3) % 5 + 0.5 * var], axis=1).astype(float)
    y = {"clf": i % 2, "ovr": i % 3, "mul": (i * 2) % 3, "reg": (i * 7) % 5 - 1.5 + var}[kind]
    return X, y


CFG = {
    "clf": dict(multiclass="multinomial"),
    "mul": dict(multiclass="multinomial", cat_split_strategy="all", criterion="entropy"),
    "ovr": dict(multiclass="ovr"),
    "reg": dict(),
    "clf-rand": dict(multiclass="multinomial", cat_split_strategy="random", categorical_features=[True, True, True]),
    "clf-noagg": dict(multiclass="multinomial", aggregation=False),
    "reg-cat": dict(categorical_features=[False, True, True], aggregation=False),
}


def make(cfg, n_est, n_jobs, seed=5, **kw):
    from wildwood import ForestClassifier, ForestRegressor
    k = cfg.split("-")[0]
    cls = ForestRegressor if k == "reg" else ForestClassifier
    a = dict(CFG[cfg])
    a.setdefault("categorical_features", [False, False, False])
    a.update(kw)
    return cls(n_estimators=n_est, n_jobs=n_jobs, random_state=seed, max_features=2, **a)


def query(n):
    X = data("clf", n)[0]
    return np.concatenate([X, X[::-1] + 0.25, X * 0 - 1.0])


def digest(f, n):
    """everything observable of a fitted forest, to the bit"""
    Q = query(n)
    keep = f.n_jobs
    f.n_jobs = 1
    try:
        out = []
        if hasattr(f, "predict_proba"):
            out += [np.asarray(f.predict_proba(Q)).tobytes(), np.asarray(f.predict_proba_trees(Q)).tobytes()]
        else:
            out += [np.asarray(f.predict_trees(Q)).tobytes()]
        out += [np.asarray(f.predict(Q)).tobytes(), np.asarray(f.apply(Q)).tobytes()]
    finally:
        f.n_jobs = keep
    try:
        for t in f.trees:
            N = seam.tree_nodes(t)
            out.append(repr([getattr(N, a) for a in seam.FIELDS if a != "loss_valid"]).encode())
            out.append(repr([sorted(p) if p else p for p in N.partition]).encode())
            out.append(repr(seam.tree_bags(t)).encode())
    except (SeamError, AttributeError):
        pass
    return tuple(out)


PARTS = ["predict_proba", "predict_proba_trees", "predict", "apply", "..."]


def which(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return "length"


def no_instr_points():
    """called at instrumented import: a small fit and prediction so that everything is compiled"""
    for cfg in CFG:
        X, y = data(cfg.split("-")[0], 7)
        for agg in (True, False):
            f = make(cfg, 2, 1, aggregation=agg).fit(X, y)
            digest(f, 7)
            if hasattr(f, "_weighted_depth"):
                f._weighted_depth(X)
