"""C14: fitting is pure: inputs untouched, result a function of the arguments only."""
import copy
import itertools
import os
import pickle

import numpy as np
import pandas as pd

from wwmc import seam, treecheck as T, forestcheck
from wwmc.common import SeamError, Violation, require, impl, h64

ASSUMPTIONS = ["a fitted forest is observed through its predictions, leaves, node tables and in-bag samples",
               "float containers hold values that float32 represents exactly"]
REF = {}
N = 14


def num(n=N, F=3, var=0):
    return np.array([[float((i * (3 + f + var) + f) % (n - f)) / 2 for f in range(F)] for i in range(n)])


Y2 = [(i * i // 3) % 2 for i in range(N)]
Y3 = [(i * i // 3 + i) % 3 for i in range(N)]
YR = [float((i * 5) % 9) / 4 for i in range(N)]
QN = np.array([[a, b, c] for a in (-1.0, 0.75, 2.0, 9.0) for b in (0.0, 2.6) for c in (1.0, 5.1)])


def frame(var=0):
    X = num(var=var)
    return pd.DataFrame({"u": X[:, 0], "v": ["abcd"[i % 4] for i in range(N)], "w": X[:, 2],
                         "z": pd.Categorical(["xyz"[(i * i // 2) % 3] for i in range(N)])})


def qframe():
    return pd.DataFrame({"u": [0.0, 1.2, 9.0, -1.0], "v": ["a", "d", "b", "c"], "w": [1.0, 0.2, 3.4, 8.0],
                         "z": pd.Categorical(["x", "z", "x", "y"], categories=["x", "y", "z"])})


# ---- the menu of configurations of the histories -------------------------------------------------
def menu():
    W = np.array([1.0 + (i % 3) for i in range(N)])
    f4 = np.array([0.5 * (1 + i % 4) for i in range(N)], dtype=np.float32)
    return [
        ("clf", {}, num(), np.array(Y2), None, QN),
        ("clf", dict(multiclass="ovr", class_weight="balanced"), num(var=1), np.array(Y3), f4, QN),
        ("clf", dict(max_depth=2, aggregation=False, criterion="entropy"), num(), np.array(["u", "v", "w"])[Y3], W, QN),
        ("clf", dict(max_bins=5, cat_split_strategy="all", max_features=2), frame(), np.array(Y3), None, qframe()),
        ("reg", {}, num(), np.array(YR), None, QN),
        ("reg", dict(max_depth=3, aggregation=False, min_samples_leaf=2), frame(1), np.array(YR, dtype=np.float32), f4, qframe()),
        ("clf", dict(step=0.3, dirichlet=0.01, cat_min_categories=8, categorical_features=[True, False]), num(F=2), np.array(Y2) == 1, f4, QN[:, :2]),
        ("clf", dict(class_weight="balanced", max_features="sqrt", n_jobs=2), num(var=2), np.array(Y2), None, QN),
    ]


SAME = [  # (data, params set before the fit): one object, n_estimators and random_state unchanged
    ("a", {}), ("b", {}), ("c", {}), ("d", dict(max_depth=2)), ("a", dict(max_depth=None)), ("b", dict(aggregation=False)),
    ("a", dict(aggregation=True, step=0.5)), ("w", {}), ("a", dict(class_weight="balanced")), ("a", dict(class_weight=None, min_samples_split=4)),
]


def same_data(tag, kind):
    if tag == "a":
        return num(), (np.array(Y2) if kind != "reg" else np.array(YR)), None, QN
    if tag == "b":
        return num(var=1), (np.array(Y3) if kind != "reg" else np.array(YR) * 3), None, QN
    if tag == "c":
        return frame(), (np.array(["p", "q", "r"])[Y3] if kind != "reg" else np.array(YR)), None, qframe()
    if tag == "d":
        return num(n=9, F=2), np.array((Y3 if kind != "reg" else YR)[:9]), None, QN[:, :2]
    return num(), (np.array(Y2) if kind != "reg" else np.array(YR)), np.array([0.5 + i % 3 for i in range(N)], dtype=np.float32), QN


def make(kind, kw, **base):
    from wildwood import ForestClassifier, ForestRegressor
    cls = ForestRegressor if kind == "reg" else ForestClassifier
    d = dict(n_estimators=2, random_state=11)
    d.update(base)
    d.update(kw)
    if kind == "ovr":
        d["multiclass"] = "ovr"
    with impl("constructor"):
        return cls(**d)


def observe(f, Q):
    """Everything visible of a fitted forest, as a digest."""
    clf = hasattr(f, "predict_proba")
    parts = []
    with impl("predict"):
        parts.append(np.asarray(f.predict(Q)).astype(str if clf else np.float64).tobytes())
        if clf:
            parts.append(np.asarray(f.predict_proba(Q), dtype=np.float64).tobytes())
    with impl("apply"):
        parts.append(np.asarray(f.apply(Q)).astype(np.int64).tobytes())
    for t in range(len(f.trees)):
        with impl("get_nodes"):
            nd = f.get_nodes(t)
        parts.append(nd.drop(columns=[c for c in nd.columns if c in ("threshold",)]).to_csv().encode())
        try:
            parts.append(repr(seam.tree_bags(f.trees[t])).encode())
        except SeamError:
            pass
    return b"".join(h64(p) for p in parts)


def run_menu(i):
    kind, kw, X, y, w, Q = menu()[i]
    f = make(kind, kw)
    with impl("fit"):
        f.fit(X, y, sample_weight=w)
    return observe(f, Q)


def run_same(f, kind, step):
    tag, ps = SAME[step]
    if kind == "reg":
        ps = {k: v for k, v in ps.items() if k != "class_weight"}
    X, y, w, Q = same_data(tag, kind)
    with impl("set_params"):
        f.set_params(**ps)
    with impl("fit"):
        f.fit(X, y, sample_weight=w)
    return observe(f, Q)


def in_child(fn):
    """Starts fn() in a forked process; the result is called for (ok, value or message)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = (True, fn())
            except Exception as e:  # noqa: BLE001
                out = (False, "%s: %s" % (type(e).__name__, e))
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)

    def result():
        data = b""
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
        os.close(r)
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else (False, "died")
    return result


def setup(tier):
    from wildwood import ForestClassifier, ForestRegressor  # noqa: F401
    for i, r in enumerate([in_child(lambda i=i: run_menu(i)) for i in range(len(menu()))]):
        REF[i] = r()


# ---- cases ---------------------------------------------------------------------------------------
XC = ["C", "F", "strided", "rev", "ro", "roF", "f4", "f4F", "f4ro", "sub", "block"]
FC = ["df", "idx", "dupidx", "cols", "intcols", "ro", "slice", "multi"]
YC = ["np", "i1", "i4", "f8", "f4", "list", "series", "ro", "strided", "be"]
WC = ["f8", "f4", "ro4", "ro8", "list", "series", "strided4", "be4", "int"]


def cases(tier):
    th = tier == "thorough"
    kinds = ["clf", "ovr", "reg"]
    for kind in kinds:
        for xc in XC:
            for agg in (True, False):
                yield ["lay", kind, xc, agg]
        for fc in FC:
            for agg in (True, False):
                yield ["frm", kind, fc, agg]
        for yc in YC:
            yield ["yc", kind, yc]
        for wc in WC:
            for cw in ((None, "balanced") if kind != "reg" else (None,)):
                yield ["wc", kind, wc, cw]
    n = len(menu())
    for d in ((1, 2, 3) if not th else (1, 2, 3, 4)):
        for s in itertools.product(range(n), repeat=d):
            if d == 4 and len(set(s)) < 3:
                continue
            yield ["hist", list(s)]
    for kind in kinds:
        for d in (1, 2, 3) if th else (1, 2):
            for s in itertools.product(range(len(SAME)), repeat=d):
                yield ["same", kind, list(s)]
        for s in itertools.permutations(range(5), 3):
            yield ["same", kind, list(s)]
    for L in range(2, 8 if th else 7):
        for lab in itertools.product(range(3), repeat=L):
            if len(set(lab)) > 1 and lab[0] <= lab[-1]:
                for ovr in (False, True):
                    yield ["bal", list(lab), ovr, (sum(lab) + L) % 3]
    for L in range(2, 7):
        for lab in itertools.product(range(2), repeat=L):
            if len(set(lab)) > 1:
                for kind in kinds:
                    for agg in (True, False):
                        yield ["ones", kind, list(lab), agg]
    for seedfun in ("np", "numba", "py"):
        for s in range(4):
            for i in range(n):
                yield ["rng", seedfun, s, i]
    for kind in kinds:
        for ops in itertools.product(range(4), repeat=3):
            yield ["pred", kind, list(ops)]


class Snap:
    """Byte-wise snapshot of an input, compared after use."""

    def __init__(self, o):
        self.o = o
        self.c = self.take(o)

    @staticmethod
    def take(o):
        if isinstance(o, np.ndarray):
            return (o.dtype.str, o.shape, o.strides, o.tobytes() if o.dtype != object else repr(o.tolist()), o.flags.writeable)
        if isinstance(o, pd.DataFrame):
            return (repr(o.columns.tolist()), repr(o.index.tolist()), repr(o.dtypes.tolist()),
                    repr([o.iloc[:, j].tolist() for j in range(o.shape[1])]),
                    repr([list(o.iloc[:, j].cat.categories) if hasattr(o.iloc[:, j], "cat") else None for j in range(o.shape[1])]))
        if isinstance(o, pd.Series):
            return (repr(o.index.tolist()), repr(o.dtype), repr(o.tolist()), repr(o.name))
        return repr(o)

    def check(self, what, name):
        require(self.take(self.o) == self.c, "%s modified %s", what, name)


def exercise(kind, X, y, w, Q, kw, ctx):
    """Fit and query with snapshots of every argument; returns the digest."""
    snaps = [("X", Snap(X)), ("y", Snap(y)), ("sample_weight", Snap(w)), ("the queried X", Snap(Q))]

    def same(what):
        for name, s in snaps:
            s.check(what, name)
    f = make(kind, kw)
    with impl("fit"):
        r = f.fit(X, y, sample_weight=w)
    require(r is f, "fit does not return the forest")
    same("fit")
    out = observe(f, Q)
    same("a prediction")
    if kind != "reg":
        with impl("predict_proba_trees"):
            f.predict_proba_trees(Q)
    else:
        with impl("predict_trees"):
            f.predict_trees(Q)
    same("a prediction of the trees")
    from wildwood.preprocessing import Encoder
    with impl("Encoder"):
        e = Encoder(cat_min_categories=4)
        e.fit(X)
        same("Encoder.fit")
        e.transform(Q)
        same("Encoder.transform")
        Encoder(cat_min_categories=4).fit_transform(X)
        same("Encoder.fit_transform")
    ctx.add("transitions", 8)
    return out


def labels(kind):
    return np.array(YR) if kind == "reg" else np.array(Y3)


BASE = {}


def base(kind, agg, fr=False):
    k = (kind, agg, fr)
    if k not in BASE:
        kw = dict(aggregation=agg, categorical_features=[False, True, False, True] if fr else [False, False, True])
        f = make(kind, kw)
        with impl("fit"):
            f.fit(frame() if fr else num(), labels(kind))
        BASE[k] = (kw, observe(f, qframe() if fr else QN))
    return BASE[k]


def layout(xc, X):
    if xc == "C":
        return np.ascontiguousarray(X)
    if xc == "F":
        return np.asfortranarray(X)
    if xc == "strided":
        B = np.full((2 * X.shape[0], 3 * X.shape[1]), -77.0)
        B[::2, 1::3] = X
        return B[::2, 1::3]
    if xc == "rev":
        return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    if xc == "ro":
        Z = X.copy()
        Z.setflags(write=False)
        return Z
    if xc == "roF":
        Z = np.asfortranarray(X)
        Z.setflags(write=False)
        return Z
    if xc == "big":
        return X.astype(X.dtype.newbyteorder(">"))
    if xc == "f4":
        return X.astype(np.float32)
    if xc == "f4F":
        return np.asfortranarray(X.astype(np.float32))
    if xc == "f4ro":
        Z = X.astype(np.float32)
        Z.setflags(write=False)
        return Z
    if xc == "sub":
        class A(np.ndarray):
            pass
        return X.copy().view(A)
    return np.vstack([X, X])[: X.shape[0]]


def lay(case, ctx):
    _, kind, xc, agg = case
    kw, ref = base(kind, agg)
    got = exercise(kind, layout(xc, num()), labels(kind), None, layout(xc, QN), kw, ctx)
    require(got == ref, "the result depends on the memory layout of X (%s)", xc)


def refr(fc, X):
    n = len(X)
    if fc == "idx":
        return X.set_axis([100 - 7 * i for i in range(n)], axis=0)
    if fc == "dupidx":
        return X.set_axis([i % 2 for i in range(n)], axis=0)
    if fc == "multi":
        return X.set_axis(pd.MultiIndex.from_tuples([(i % 2, i) for i in range(n)]), axis=0)
    if fc == "cols":
        return X.set_axis(["zz", "a", "Total", "label"][: X.shape[1]], axis=1)
    if fc == "intcols":
        return X.set_axis([3, 1, 0, 2][: X.shape[1]], axis=1)
    if fc == "ro":
        Z = X.copy()
        for j in range(Z.shape[1]):
            v = Z.iloc[:, j].values
            if isinstance(v, np.ndarray):
                v.setflags(write=False)
        return Z
    if fc == "slice":
        Z = pd.concat([X, X])
        return Z.iloc[n:]
    return X


def frm(case, ctx):
    _, kind, fc, agg = case
    kw, ref = base(kind, agg, True)
    Q = qframe()
    X = refr(fc, frame())
    Qr = refr(fc, Q) if fc != "slice" else Q
    got = exercise(kind, X, labels(kind), None, Qr, kw, ctx)
    require(got == ref, "the result depends on the index, names or blocks of the dataframe (%s)", fc)


def recast(c, a):
    if c in ("np", "f8"):
        return np.array(a, dtype=np.float64)
    if c == "i1":
        return np.array(a).astype(np.int8)
    if c in ("i4", "int"):
        return np.array(a).astype(np.int32)
    if c in ("f4",):
        return np.array(a, dtype=np.float32)
    if c == "list":
        return [float(v) for v in a]
    if c == "series":
        return pd.Series([float(v) for v in a], index=[50 - i for i in range(len(a))])
    if c in ("ro", "ro8"):
        z = np.array(a, dtype=np.float64)
        z.setflags(write=False)
        return z
    if c == "ro4":
        z = np.array(a, dtype=np.float32)
        z.setflags(write=False)
        return z
    if c == "strided":
        return np.array([v for x in a for v in (x, 99.0)], dtype=np.float64)[::2]
    if c == "strided4":
        return np.array([v for x in a for v in (x, 99.0)], dtype=np.float32)[::2]
    if c == "be":
        return np.array(a, dtype=">f8")
    if c == "be4":
        return np.array(a, dtype=">f4")
    raise SeamError(c)


def yc(case, ctx):
    _, kind, c = case
    y = [float(int(v)) for v in labels(kind)]
    kw = dict(categorical_features=[False, False, True])
    ref = exercise(kind, num(), np.array(y), None, QN, kw, ctx)
    got = exercise(kind, num(), recast(c, y), None, QN, kw, ctx)
    if kind == "reg":
        require(got == ref, "the result depends on the container of y (%s)", c)
    else:
        # the labels themselves may be printed differently: compare everything but predict
        require(got[8:] == ref[8:], "the result depends on the container of y (%s)", c)


def wc(case, ctx):
    _, kind, c, cw = case
    w = [float(1 + (i * i) % 3) for i in range(N)]
    kw = dict(categorical_features=[False, False, True])
    if cw:
        kw["class_weight"] = cw
    ref = exercise(kind, num(), labels(kind), np.array(w), QN, kw, ctx)
    got = exercise(kind, num(), labels(kind), recast(c, w), QN, kw, ctx)
    require(got == ref, "the result depends on the container of sample_weight (%s)", c)


def hist(case, ctx):
    _, seq = case
    for i in seq[:-1]:
        run_menu(i)
    i = seq[-1]
    ok, ref = REF[i]
    if not ok:
        raise Violation("configuration %d in a fresh process: %s" % (i, ref))
    got = run_menu(i)
    ctx.add("transitions", len(seq))
    require(got == ref, "the fit of configuration %d depends on the fits done before: %s", i, seq[:-1])


def same(case, ctx):
    """Several fits of one object: the last one equals the fit of a new object with the same parameters."""
    _, kind, seq = case
    f = make(kind, {})
    for s in seq:
        got = run_same(f, kind, s)
    ps = {}
    for s in seq:
        ps.update(SAME[s][1])
    if kind == "reg":
        ps.pop("class_weight", None)
    g = make(kind, ps)
    X, y, w, Q = same_data(SAME[seq[-1]][0], kind)
    with impl("fit"):
        g.fit(X, y, sample_weight=w)
    ref = observe(g, Q)
    ctx.add("transitions", len(seq))
    require(got == ref, "fitting one object with %s differs from a new object", [SAME[s] for s in seq])


def bal(case, ctx):
    _, lab, ovr, wm = case
    n = len(lab)
    X = np.array([[float((3 * i) % n), float(i * i % 5)] for i in range(n)])
    w = [[1.0] * n, [1.0 + i % 2 for i in range(n)], [0.5 * (1 + i % 3) for i in range(n)]][wm]
    y = np.array([7, 3, 5])[list(lab)]
    kw = dict(n_estimators=2, random_state=sum(lab), aggregation=False, class_weight="balanced", max_features=None,
              categorical_features=[False, False], multiclass="ovr" if ovr else "multinomial")
    sw = None if wm == 0 else np.array(w, dtype=np.float32)
    snap = Snap(sw)
    f = forestcheck.fit_forest("clf", X, y, sw, **kw)
    snap.check("fit", "sample_weight")
    cls = sorted(set(y.tolist()))
    K = len(cls)
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder")
    Xb = seam.bitarray_to_array(enc.transform(X)).tolist()
    real = ovr and K > 2
    for t, tree in enumerate(f.trees):
        yy = [float(v == cls[t // 2]) for v in y] if real else [float(cls.index(v)) for v in y]
        kk = 2 if real else K
        cnt = {v: yy.count(v) for v in set(yy)}
        ww = [w[i] * n / (len(cnt) * cnt[yy[i]]) for i in range(n)]
        c = forestcheck.tree_case(f, "clf", t, tree, Xb, yy, ww, dict(aggregation=False, dirichlet=f.dirichlet, criterion="gini"), kk)
        c["exact"] = False
        g = T.from_forest_tree(tree, c)
        T.check_partition(g, ctx, rows=Xb, fb=enc.transform(X))
        T.check_node_predictions(g, ctx, rows=Xb, fb=enc.transform(X))
        T.check_splits(g, ctx)
        ctx.add("balanced_trees")


def ones(case, ctx):
    _, kind, lab, agg = case
    n = len(lab)
    X = np.array([[float((3 * i) % n), float(i * i % 5)] for i in range(n)])
    y = np.array(lab)
    out = []
    for w in (None, np.ones(n), np.ones(n, dtype=np.float32), [1] * n):
        f = make(kind, dict(aggregation=agg, random_state=n))
        with impl("fit"):
            f.fit(X, y, sample_weight=w)
        out.append(observe(f, X))
    require(len(set(out)) == 1, "omitted weights and weights equal to one give different forests")


def rng(case, ctx):
    _, how, s, i = case
    if how == "np":
        np.random.seed(s)
        np.random.rand(s)
    elif how == "py":
        import random
        random.seed(s)
    else:
        _numba_seed()(s)
    ok, ref = REF[i]
    if not ok:
        raise Violation(ref)
    require(run_menu(i) == ref, "the fit of configuration %d depends on the state of the %s generator", i, how)


_NS = []


def _numba_seed():
    if not _NS:
        import numba

        @numba.njit
        def f(s):
            np.random.seed(s)
        _NS.append(f)
    return _NS[0]


def pred(case, ctx):
    """Queries never change a forest."""
    _, kind, ops = case
    if ("pf", kind) not in BASE:
        f = make(kind, {})
        with impl("fit"):
            f.fit(num(), labels(kind))
        BASE[("pf", kind)] = (f, observe(f, QN))
    f, ref = BASE[("pf", kind)]
    for o in ops:
        with impl("query"):
            if o == 0:
                f.predict(num()[:3])
            elif o == 1:
                f.apply(np.asfortranarray(QN[:2]))
            elif o == 2:
                f.predict_proba(QN[::-1]) if kind != "reg" else f.predict(QN[::-1])
            else:
                pickle.dumps(copy.deepcopy(f))
    require(observe(f, QN) == ref, "queries changed the forest")
    ctx.add("transitions", 3)


def check(case, ctx):
    dict(lay=lay, frm=frm, yc=yc, wc=wc, hist=hist, same=same, bal=bal, ones=ones, rng=rng, pred=pred)[case[0]](case, ctx)
    ctx.state(repr(case))
    ctx.add("traces")
