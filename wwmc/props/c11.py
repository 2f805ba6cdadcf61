"""C11: changing step or dirichlet, pickling and lightening keep a forest consistent.

Explicit state model: (step, dirichlet, lightened).  Every operation sequence up to the depth is executed on
the real forest; after every operation the forest must agree with a fresh fit of the model's parameters."""
import copy
import itertools
import pickle

import numpy as np

from wwmc.common import Violation, require, impl

ASSUMPTIONS = ["predictions recomputed after a change of parameter may differ from a fresh fit by float32 rounding (2e-6)",
               "sequences are executed with forests of two trees on 14 samples"]
N = 14
X = np.array([[float((5 * i) % 9), float(i % 4), float((i * i) % 6)] for i in range(N)])
Q = np.array([[a, b, c] for a in (-1.0, 1.5, 4.0, 8.0) for b in (0.0, 3.0, 7.0) for c in (0.5, 3.0)])
W = np.array([1.0 + (i % 3) for i in range(N)])
CONF = {
    "clf": dict(y=[(i * i // 3) % 3 for i in range(N)], kw={}),
    "bin": dict(y=[(i * i // 3) % 2 for i in range(N)], kw=dict(criterion="entropy")),
    "ovr": dict(y=[(i * i // 3) % 3 for i in range(N)], kw=dict(multiclass="ovr")),
    "reg": dict(y=[float((5 * i) % 9) - 3 for i in range(N)], kw={}),
}
REF = {}


def setup(tier):
    from wildwood import ForestClassifier, ForestRegressor  # noqa: F401


def ops(conf, agg, big=False):
    o = ["s0.25", "s3.0", "P", "C", "L", "Q", "R"]
    if conf != "reg":
        o += ["d0.05", "d2.0", "d0.0"]
    o += ["bad"]
    if big:
        o += ["s1.0", "X", "P2"] + (["d0.5"] if conf != "reg" else [])
    return o


def cases(tier):
    th = tier == "thorough"
    for conf in CONF:
        for agg in (True, False):
            for d in (1, 2, 3):
                big = th or d < 3 or (agg and conf in ("clf", "reg"))
                o = ops(conf, agg, big)
                if not big:
                    o = [v for v in o if v not in ("Q", "bad")]
                for s in itertools.product(o, repeat=d):
                    yield [conf, agg, list(s)]
    for conf in ("clf", "ovr", "reg") if th else ("clf", "reg"):
        for agg in ((True, False) if th else (True,)):
            o = ops(conf, agg)
            if not th:
                o = [v for v in o if v not in ("Q", "bad", "s3.0")]
            for s in itertools.product(o, repeat=4):
                yield [conf, agg, list(s)]
    if th:
        o = ["s0.25", "P", "L", "d0.05", "d2.0", "R", "C"]
        for conf in ("clf", "reg"):
            for s in itertools.product([v for v in o if conf != "reg" or v[0] != "d"], repeat=5):
                yield [conf, True, list(s)]


def new(conf, agg, step=1.0, dirichlet=0.5):
    from wildwood import ForestClassifier, ForestRegressor
    kw = dict(n_estimators=2, random_state=5, aggregation=agg, step=step, categorical_features=[False, True, False],
              cat_min_categories=5, **CONF[conf]["kw"])
    if conf != "reg":
        kw["dirichlet"] = dirichlet
    return (ForestRegressor if conf == "reg" else ForestClassifier)(**kw)


def fit(f, conf):
    with impl("fit"):
        f.fit(X, np.array(CONF[conf]["y"]), sample_weight=W)
    return f


def look(f, conf):
    with impl("predict"):
        P = np.asarray(f.predict_proba(Q) if conf != "reg" else f.predict(Q), dtype=np.float64)
        T = np.asarray(f.predict_proba_trees(Q) if conf != "reg" else f.predict_trees(Q), dtype=np.float64)
        L = np.asarray(f.predict(Q))
    with impl("apply"):
        A = np.asarray(f.apply(Q))
    return P, T, A, L


def ref(conf, agg, step, dirichlet):
    k = (conf, agg, step, dirichlet)
    if k not in REF:
        REF[k] = look(fit(new(*k), conf), conf)
    return REF[k]


def eq(a, b, what, exact):
    sc = max(1.0, float(np.abs(b[0]).max()))
    for x, y, n in zip(a, b, ("predictions", "predictions of the trees", "leaves")):
        require(x.shape == y.shape, "%s: %s have shape %s instead of %s", what, n, x.shape, y.shape)
        if exact or n == "leaves":
            require(np.array_equal(x, y), "%s: the %s changed", what, n)
        else:
            require(bool(np.all(np.abs(x - y) <= 2e-6 * sc)), "%s: the %s differ from a fresh fit by %.3g", what, n, np.abs(x - y).max())


def params_ok(f, conf, step, dirichlet, what):
    require(f.step == step, "%s: step is %r instead of %r", what, f.step, step)
    if conf != "reg":
        require(f.dirichlet == dirichlet, "%s: dirichlet is %r instead of %r", what, f.dirichlet, dirichlet)
    require(f.get_params()["step"] == step, "%s: get_params gives another step", what)


def check(case, ctx):
    conf, agg, seq = case
    f = fit(new(conf, agg), conf)
    step, dirichlet, light = 1.0, 0.5, False
    cur = look(f, conf)
    eq(cur, ref(conf, agg, step, dirichlet), "first fit", True)
    done = []
    for op in seq:
        done.append(op)
        what = "after %s" % " ".join(done)
        exact = True
        if op[0] == "s":
            v = float(op[1:])
            with impl("setting step"):
                f.step = v
            exact = v == step
            step = v
        elif op[0] == "d":
            v = float(op[1:])
            ok = True
            if v != dirichlet and light:
                ok = False
            if v == 0.0 and agg:
                ok = False
            try:
                f.dirichlet = v
                if not ok:
                    raise Violation("%s: dirichlet=%s is accepted" % (what, v))
                exact = v == dirichlet
                dirichlet = v
            except ValueError as e:
                if ok:
                    raise Violation("%s: dirichlet=%s raised %s" % (what, v, e))
        elif op == "bad":
            for name, v in (("step", -1.0), ("dirichlet", -1.0), ("n_estimators", 7), ("random_state", 9)):
                if name == "dirichlet" and conf == "reg":
                    continue
                try:
                    setattr(f, name, v)
                except ValueError:
                    continue
                raise Violation("%s: %s=%s is accepted" % (what, name, v))
        elif op in ("P", "P2"):
            with impl("pickle"):
                f = pickle.loads(pickle.dumps(f, protocol=2 if op == "P2" else pickle.HIGHEST_PROTOCOL))
        elif op == "C":
            with impl("deepcopy"):
                f = copy.deepcopy(f)
        elif op == "X":
            with impl("deepcopy"):
                g = copy.deepcopy(f)
                g.step = 7.0
                g.lighten()
        elif op == "L":
            with impl("lighten"):
                f.lighten()
            light = True
        elif op == "R":
            f = fit(f, conf)
            light = False
            eq(look(f, conf), ref(conf, agg, step, dirichlet), what, True)
            exact = False
        now = look(f, conf)
        if exact:
            eq(now, cur, what, True)
            require(np.array_equal(now[3], cur[3]), "%s: the predicted labels changed", what)
        eq(now, ref(conf, agg, step, dirichlet), what, False)
        params_ok(f, conf, step, dirichlet, what)
        cur = now
        ctx.add("transitions")
        ctx.state((conf, agg, step, dirichlet, light, op))
    ctx.outcome(np.round(cur[0], 5).tobytes())
    ctx.add("traces")
