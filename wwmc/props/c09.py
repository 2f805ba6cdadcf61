"""C09: a seeded fit is identical for every number of jobs and thread schedule."""
import itertools
import random

import numpy as np

from wwmc import sched, schedfam as S, seam
from wwmc.common import require, impl, SeamError

INSTRUMENT = True
ASSUMPTIONS = [
    "scheduling points: lines of wildwood's Python code, entries and loop heads of its jitted functions, lock "
    "operations, task boundaries; what lies between two points is one atomic step",
    "joblib's own dispatching is trusted (its threading backend is replaced by the controlled one); numpy's and "
    "numba's own thread safety is trusted",
]
REF = {}


def probe():
    S.no_instr_points()


def setup(tier):
    if not REF:
        S.no_instr_points()
        for cfg in S.CFG:
            for ne in (1, 2, 3, 4):
                REF[cfg, ne] = reference(cfg, ne)
    sched.install()


def reference(cfg, ne):
    n = 7
    X, y = S.data(cfg.split("-")[0], n)
    return S.digest(S.make(cfg, ne, 1).fit(X, y), n)


OPS = ["nothing", "npseed", "npdraw", "pyseed", "numba", "fit-other", "fit-random", "fit-reg", "predict", "refit"]


def cases(tier):
    th = tier == "thorough"
    # thread assignments and completion orders without preemption, up to six trees and four threads
    for cfg in S.CFG:
        for ne, nj in (((1, 2), (1, 3), (2, 2)) if cfg == "ovr" else ((3, 2), (3, 3), (4, 2), (4, 3), (4, 4))):
            yield ["sched", cfg, ne, nj, 0, True, False, 0, 1]
    # one preemption anywhere, jitted code included (one-versus-rest: three trees, one per class)
    for cfg in S.CFG:
        ne = 1 if cfg == "ovr" else 2
        for k in range(8):
            yield ["sched", cfg, ne, 2, 1, True, True, k, 8]
    for cfg in ("clf", "reg", "ovr", "clf-rand") if th else ("clf", "ovr"):
        for k in range(16):
            yield ["sched", cfg, 1 if cfg == "ovr" else 3, 3, 1, True, False, k, 16]
    # two preemptions
    for cfg in (("clf",) if not th else tuple(c for c in S.CFG if c != "ovr")):
        for k in range(64):
            yield ["sched", cfg, 2, 2, 2, True, False, k, 64]
    if th:
        for cfg in ("clf", "reg", "clf-rand"):
            for k in range(128):
                yield ["sched", cfg, 2, 2, 2, False, True, k, 128]
        for cfg in S.CFG:
            for k in range(64):
                yield ["sched", cfg, 1 if cfg == "ovr" else 3, 3, 1, True, True, k, 64]
                yield ["sched", cfg, 2 if cfg == "ovr" else 4, 2, 1, True, False, k, 64]
        for k in range(128):
            yield ["sched", "ovr", 1, 2, 2, True, False, k, 128]
    # histories, real backend
    for cfg in S.CFG:
        for ops in itertools.product(OPS, repeat=3 if th else 2):
            if "nothing" in ops[:-1] and ops[-1] != "nothing":
                continue
            yield ["hist", cfg, list(ops)]
    for cfg in S.CFG:
        for nj in (1, 2, 3, 4, 5, 8, 16, -1):
            for rep in range(3):
                yield ["jobs", cfg, nj, rep]
    for kind in ("clf", "ovr", "reg"):
        for op in OPS[:-1]:
            for nj in (1, 2, 3):
                for seed in range(8 if th else 2):
                    yield ["depth", kind, op, nj, seed]
    for kind in ("clf", "ovr", "reg"):
        for seed in range(200 if th else 40):
            yield ["distinct", kind, seed]


def do(op, f, X, y, k):
    if op == "npseed":
        np.random.seed(3)
    elif op == "npdraw":
        np.random.random(7)
        np.random.randint(0, 5, 3)
    elif op == "pyseed":
        random.seed(9)
        random.random()
    elif op == "numba":
        from wwmc.props import c14
        g = c14._numba_seed()
        g(11)
    elif op == "fit-other":
        X2, y2 = S.data("mul", 9, 1)
        S.make("mul", 3, 1, seed=99, dirichlet=0.1).fit(X2, y2)
    elif op == "fit-random":
        X2, y2 = S.data("clf", 8, 1)
        S.make("clf-rand", 2, 2, seed=1).fit(X2, y2)
    elif op == "fit-reg":
        X2, y2 = S.data("reg", 8, 2)
        S.make("reg", 2, 1, seed=2).fit(X2, y2)
    elif op == "predict":
        g = S.make("clf", 2, 2).fit(*S.data("clf", 7))
        g.predict_proba(S.query(7))
    elif op == "refit":
        f.fit(X, y)


def check(case, ctx):
    kind = case[0]
    n = 7
    if kind == "sched":
        _, cfg, ne, nj, bound, lines, jit, k, m = case
        X, y = S.data(cfg.split("-")[0], n)
        ref = REF[cfg, ne]
        snap = X.copy(), np.array(y)

        def fn():
            return S.make(cfg, ne, nj).fit(X, y)

        def judge(s, f, exc):
            require(s.deadlock is None, "deadlock: %s (schedule %s)", s.deadlock, sparse(s))
            with impl("fit under schedule %s" % sparse(s)):
                if exc is not None:
                    raise exc
            if s.runs == 0:
                raise SeamError("fit does not use joblib's threading backend")
            d = S.digest(f, n)
            require(d == ref, "the forest differs from the sequential one (part %s) under schedule %s, tasks %s",
                    S.which(d, ref), sparse(s), s.assigned)
            require(np.array_equal(X, snap[0]) and np.array_equal(y, snap[1]), "fit modified its inputs")
            ctx.add("transitions", s.nsteps)
            ctx.beat()

        r = sched.explore(fn, judge, bound=bound, shard=(k, m), lines=lines, jit=jit)
        ctx.add("schedules", r["schedules"])
        ctx.counts["traces"] = ctx.counts.get("traces", 0) + r["schedules"]
        for a in r["assignments"]:
            ctx.state((cfg, ne, nj, a))
            ctx.outcome((cfg, a))
        if m > 1:
            ctx.state((cfg, ne, nj, bound, lines, jit, k))
    elif kind == "hist":
        _, cfg, ops = case
        X, y = S.data(cfg.split("-")[0], n)
        with impl("history %s" % ops):
            f = S.make(cfg, 3, 2)
            for i, op in enumerate(ops):
                do(op, f, X, y, i)
            f.fit(X, y)
            d = S.digest(f, n)
        require(d == REF[cfg, 3], "after %s the fit differs from a fresh one (part %s)", ops, S.which(d, REF[cfg, 3]))
        ctx.add("transitions", len(ops) + 1)
        ctx.state(case)
    elif kind == "jobs":
        _, cfg, nj, rep = case
        X, y = S.data(cfg.split("-")[0], n)
        with impl("fit(n_jobs=%d)" % nj):
            d = S.digest(S.make(cfg, 4, nj).fit(X, y), n)
        require(d == REF[cfg, 4], "n_jobs=%d differs from n_jobs=1 (part %s)", nj, S.which(d, REF[cfg, 4]))
        ctx.add("transitions")
        ctx.state(case)
    elif kind == "depth":
        _, kd, op, nj, seed = case
        X, y = S.data("clf", n)
        with impl("fit(randomized_depth=True) after %s" % op):
            a = depth_digest(kd, 1, seed)
            do(op, None, X, y, 0)
            b = depth_digest(kd, nj, seed)
        require(a == b, "randomized_depth=True, random_state=%d: the forest fitted after %s with n_jobs=%d differs "
                "from the one fitted before", seed, op, nj)
        ctx.add("transitions", 2)
        ctx.state(case)
    else:
        _, kd, seed = case
        n = 64
        X, y = S.data(kd, n)
        with impl("fit"):
            f = S.make(kd, 5, 1, seed=seed, max_depth=2).fit(X, y)
        bags = [tuple(sorted(seam.tree_bags(t)[0])) for t in f.trees]
        per = 5
        require(len(bags) == (per * 3 if kd == "ovr" else per), "%d trees", len(bags))
        for c in range(0, len(bags), per):
            require(len(set(bags[c:c + per])) == per, "random_state=%d: two trees have the same bootstrap sample", seed)
        ctx.add("transitions")
        ctx.state(case)


def deep_data(kind, n=200):
    """one feature whose best tree is a chain, much deeper than any depth fit(randomized_depth=True) draws"""
    i = np.arange(n)
    X = i[:, None].astype(float)
    return X, (1.15 ** i if kind == "reg" else i % (3 if kind == "ovr" else 2))


def depth_digest(kind, nj, seed):
    X, y = deep_data(kind)
    f = S.make(kind, 4, nj, seed=seed, aggregation=False, categorical_features=[False])
    f.max_features = 1
    f.fit(X, y, randomized_depth=True)
    f.n_jobs = 1
    return np.asarray(f.predict_proba(X) if kind != "reg" else f.predict_trees(X)).tobytes() + f.apply(X).tobytes()


def sparse(s):
    return [(i, c) for i, (o, c) in enumerate(s.trace) if c][:12]
