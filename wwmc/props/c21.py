"""C21: calls made at the same time by several threads give what each gives alone."""
import copy
import pickle

import numpy as np

from wwmc import sched, schedfam as S
from wwmc.common import require, impl, SeamError
from wwmc.props.c09 import sparse

INSTRUMENT = True
ASSUMPTIONS = [
    "scheduling points: lines of wildwood's Python code, entries and loop heads of its jitted functions, lock "
    "operations, the middle of an in-place update of a buffer made by wildwood.forest; what lies between two points "
    "is one atomic step",
    "each caller uses n_jobs=1 (C09 and C10 decide the threads of one call); numpy, pandas, scikit-learn and numba are "
    "trusted to be thread safe",
]
N = 7
F, REF = {}, {}
READS = {"clf": ["predict_proba", "predict", "predict_proba_trees", "apply", "get_nodes", "pickle"],
         "reg": ["predict", "predict_trees", "apply", "_weighted_depth", "get_nodes", "pickle"]}
CFGS = ("clf", "ovr", "reg", "reg-cat")


def kind(cfg):
    return "reg" if cfg.startswith("reg") else "clf"


def queries():
    Q = S.query(N)
    # the second one has the shape of the first
    return [Q, Q[::-1] + 0.5, Q[: N + 2] - 0.5]


def frame(Q):
    import pandas as pd
    return pd.DataFrame({"a": Q[:, 0], "b": pd.Categorical(["v%d" % (v % 3) for v in Q[:, 1]]), "c": Q[:, 2]})


def op_fn(f, op, q):
    """a function of no argument and what it is expected to return is decided by running it alone"""
    if op == "get_nodes":
        return lambda: [repr(f.get_nodes(0).values.tolist())]
    if op == "pickle":
        return lambda: np.asarray(pickle.loads(pickle.dumps(f)).predict(q))
    return lambda: np.array(getattr(f, op)(q))


def mixed(cfg):
    """a forest with a categorical column given as text, fitted from a dataframe"""
    X, y = S.data(kind(cfg) if cfg != "ovr" else "ovr", N)
    f = S.make(cfg, 2, 1)
    f.categorical_features = None
    return f.fit(frame(X), y)


def probe():
    S.no_instr_points()


def setup(tier):
    if not F:
        S.no_instr_points()
        for cfg in CFGS:
            X, y = S.data(cfg.split("-")[0], N)
            F[cfg, "array"] = S.make(cfg, 2, 1).fit(X, y)
            F[cfg, "frame"] = mixed(cfg)
            for src in ("array", "frame"):
                f = F[cfg, src]
                if hasattr(f, "lighten"):
                    f.lighten()
                for k, q in enumerate(queries()):
                    q = frame(q) if src == "frame" else q
                    for op in READS[kind(cfg)]:
                        if op in ("pickle", "get_nodes") or hasattr(f, op):
                            REF[cfg, src, op, k] = op_fn(f, op, q)()
        for i, (name, fn) in enumerate(FITS.items()):
            REF["fit", name] = value(fn()())
    sched.install()


class Later:
    def __init__(self, fn):
        self.fn = fn


def value(v):
    return v.fn() if isinstance(v, Later) else v


def fit_fn(cfg, n, var, src="array"):
    def make():
        X, y = S.data(cfg.split("-")[0], n, var)
        if src == "frame":
            X = frame(X)

        def go():
            f = S.make(cfg, 1, 1, seed=5 + var)
            if src == "frame":
                f.categorical_features = None
            f.fit(X, y)
            # looked at when the threads have ended
            return Later(lambda: S.digest(f, n) if src == "array" else (np.asarray(f.predict(X)).tobytes(),))
        return go
    return make


def enc_fn(var):
    def make():
        from wildwood.preprocessing import Encoder
        df = frame(S.data("clf", N, var)[0])

        def go():
            e = Encoder()
            fb = e.fit_transform(df)
            return Later(lambda: repr(e.inverse_transform(fb).values.tolist()).encode())
        return go
    return make


FITS = {"clf0": fit_fn("clf", 7, 0), "clf1": fit_fn("clf", 9, 1), "reg0": fit_fn("reg", 7, 0),
        "ovr0": fit_fn("ovr", 7, 0), "rand": fit_fn("clf-rand", 7, 0), "frame": fit_fn("clf", 7, 0, "frame"),
        "enc0": enc_fn(0), "enc1": enc_fn(1)}


def cases(tier):
    th = tier == "thorough"
    # fits of different forests, and a fit beside a query of another forest
    names = list(FITS)
    for a, b in ([(a, b) for i, a in enumerate(names) for b in names[i:]] if th else
                 (("reg0", "clf0"), ("rand", "rand"), ("frame", "frame"), ("enc0", "enc1"))):
        for k in range(8):
            yield ["fit", [a, b], 1, True, False, k, 8]
    for a, b in (("clf0", "clf1"), ("reg0", "clf0"), ("rand", "rand"), ("enc0", "enc1")):
        for k in range(8):
            yield ["fit", [a, b], 1, False, True, k, 8]
    for a in names if th else ("clf0", "enc0"):
        for cfg in CFGS:
            for op in ("predict", "apply") if th else ("predict",):
                for k in range(2):
                    yield ["mix", a, cfg, op, 1, True, False, k, 2]
    # two readers of one forest, one preemption anywhere
    for cfg in CFGS:
        ops = READS[kind(cfg)]
        for src in ("array", "frame") if th or cfg in ("clf", "reg-cat") else ("array",):
            for i, a in enumerate(ops):
                if th or src == "array" and a != "pickle" and (i == 0 or cfg in ("clf", "reg")):
                    yield ["read", cfg, src, [[a, 0], [a, 2]], 1, True, False, 0, 1]
                for b in ops[i:] if th or (src == "array" and (a == ops[0] or cfg in ("clf", "reg"))) else [a]:
                    if "pickle" in (a, b):
                        if th or (src == "array" and cfg in ("clf", "reg") and a == ops[0]):
                            for k in range(4):
                                yield ["read", cfg, src, [[a, 0], [b, 1]], 1, True, False, k, 4]
                        continue
                    yield ["read", cfg, src, [[a, 0], [b, 1]], 1, True, False, 0, 1]
    # inside the jitted code
    for cfg in CFGS:
        ops = READS[kind(cfg)]
        for a, b in (((ops[0], ops[0]), (ops[0], ops[2]), (ops[1], ops[2]))[:3 if cfg in ("clf", "reg") else 1] if not th else
                     [(a, b) for i, a in enumerate(ops) for b in ops[i:]]):
            for k in range(4):
                yield ["read", cfg, "array", [[a, 0], [b, 1]], 1, False, True, k, 4]
    # three readers
    for cfg in CFGS if th else ("clf", "reg"):
        ops = READS[kind(cfg)]
        for k in range(8):
            yield ["read", cfg, "array", [[ops[0], 0], [ops[1], 1], [ops[2], 0]], 1, True, False, k, 8]
    if th:
        for cfg in CFGS:
            ops = READS[kind(cfg)]
            for src in ("array", "frame"):
                for a, b in ((ops[0], ops[0]), (ops[1], ops[2])):
                    for k in range(64):
                        yield ["read", cfg, src, [[a, 0], [b, 1]], 2, True, False, k, 64]
        for a, b in (("clf0", "clf1"), ("enc0", "enc1"), ("frame", "frame"), ("rand", "reg0")):
            for k in range(128):
                yield ["fit", [a, b], 2, True, False, k, 128]


def same(got, want):
    if isinstance(want, np.ndarray):
        return (isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype == want.dtype
                and bool(((got == want) | ((got != got) & (want != want))).all()))
    return got == want


def check(case, ctx):
    if case[0] == "read":
        _, cfg, src, calls = case[:4]
        f = F[cfg, src]
        todo = []
        for op, k in calls:
            if (cfg, src, op, k) not in REF:
                raise SeamError("no method " + op)
            q = queries()[k]
            todo.append(("%s(X%d)" % (op, k), lambda op=op, q=q: op_fn(f, op, frame(q) if src == "frame" else q),
                         REF[cfg, src, op, k]))
    elif case[0] == "fit":
        todo = [("fit " + n, FITS[n], REF["fit", n]) for n in case[1]]
    else:
        _, a, cfg, op = case[:4]
        todo = [("fit " + a, FITS[a], REF["fit", a]),
                (op, lambda: op_fn(F[cfg, "array"], op, queries()[0]), REF[cfg, "array", op, 0])]
    bound, lines, jit, k, m = case[-5:]

    def run():
        s = sched.ACTIVE[0]
        jobs = [sched.Job(i, mk(), None) for i, (_, mk, _) in enumerate(todo)]
        s.queue.extend(jobs)
        s.drain(len(jobs))
        if s.deadlock:
            raise sched.Deadlock(s.deadlock)
        return jobs

    def judge(s, jobs, exc):
        require(s.deadlock is None, "deadlock of %s: %s (schedule %s)", [t[0] for t in todo], s.deadlock, sparse(s))
        if exc is not None:
            raise exc
        for j, (name, _, want) in zip(jobs, todo):
            with impl("%s at the same time as %s, schedule %s" % (name, [t[0] for t in todo], sparse(s))):
                if j.exc is not None:
                    raise j.exc
                out = value(j.out)
            require(same(out, want), "%s at the same time as %s gives another result than alone (schedule %s): %s instead "
                    "of %s", name, [t[0] for t in todo], sparse(s), str(out)[:200], str(want)[:200])
        ctx.add("transitions", s.nsteps)
        ctx.beat()

    r = sched.explore(run, judge, bound=bound, shard=(k, m), lines=lines, jit=jit)
    ctx.add("schedules", r["schedules"])
    ctx.add("traces", r["schedules"])
    for a in r["assignments"]:
        ctx.state((case[:4], a))
        ctx.outcome(a)
    if m > 1:
        ctx.state(case)
