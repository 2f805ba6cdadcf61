"""C10: parallel prediction counts every tree exactly once under every schedule."""
import numpy as np

from wwmc import sched, schedfam as S, seam
from wwmc.common import require, impl, SeamError
from wwmc.props.c09 import sparse

INSTRUMENT = True
ASSUMPTIONS = [
    "scheduling points: lines of wildwood's Python code, entries and loop heads of its jitted functions, lock "
    "operations, task boundaries, the middle of an in-place update of a buffer made by wildwood.forest; what lies "
    "between two points is one atomic step",
    "joblib's own dispatching is trusted (its threading backend is replaced by the controlled one); forest "
    "predictions are compared up to 1e-6 (the order of the sum is free)",
]
F = {}
OPS = {"clf": ["predict_proba", "predict", "predict_proba_trees", "apply"],
       "reg": ["predict", "predict_trees", "apply", "_weighted_depth"]}
N = 7


def probe():
    S.no_instr_points()


def setup(tier):
    if not F:
        for cfg in ("clf", "ovr", "mul", "reg"):
            X, y = S.data(cfg, N)
            for ne in (1, 2, 3, 4):
                f = S.make(cfg, ne, 1).fit(X, y)
                F[cfg, ne] = f, {op: np.array(getattr(f, op)(S.query(N))) for op in ops(f, cfg)}
                F[cfg, ne][1]["proba"] = tree_mean(f, cfg, ne)
    sched.install()


def ops(f, cfg):
    return [o for o in OPS["reg" if cfg == "reg" else "clf"] if hasattr(f, o)]


def tree_mean(f, cfg, ne):
    """The definition, from the trees one by one."""
    enc = getattr(f, "_encoder", None)
    if enc is None or not hasattr(f, "trees"):
        return None
    fb = enc.transform(S.query(N))
    P = [seam.tree_predict(t, "reg" if cfg == "reg" else "clf", fb) for t in f.trees]
    if cfg == "ovr":
        K = len(P) // ne
        A = np.stack([sum(P[c * ne:(c + 1) * ne])[:, 1] for c in range(K)], axis=1)
        return A / A.sum(axis=1, keepdims=True)
    return sum(P) / len(P)


def cases(tier):
    th = tier == "thorough"
    for cfg in ("clf", "ovr", "mul", "reg"):
        names = OPS["reg" if cfg == "reg" else "clf"]
        for op in names:
            yield ["base", cfg, op]
            for nj in (2, 3, 4, 8, -1):
                for ne in (1, 2, 3, 4):
                    yield ["jobs", cfg, op, ne, nj]
            ovr = cfg == "ovr"
            for ne, nj in (((1, 2), (1, 3), (2, 2)) if ovr else ((3, 2), (3, 3), (4, 2))):
                yield ["sched", cfg, op, ne, nj, 0, True, False, 0, 1]
            for k in range(8):
                # one-versus-rest: three trees, one per class
                yield ["sched", cfg, op, 1 if ovr else 2, 2, 1, True, True, k, 8]
                yield ["sched", cfg, op, 1 if ovr else 2, 2, 2, True, False, k, 8]
                if th or op in ("predict_proba", "predict", "apply"):
                    yield ["sched", cfg, op, 1 if ovr else 3, 3, 1, True, False, k, 8]
    for k in range(32):
        yield ["sched", "ovr", "predict_proba", 2, 2, 1, True, th, k, 32]
    for cfg, op in (("clf", "predict_proba"), ("reg", "predict")):
        for k in range(64):
            yield ["sched", cfg, op, 2, 2, 2, True, True, k, 64]
            yield ["sched", cfg, op, 3, 2, 2, True, False, k, 64]
            if th:
                yield ["sched", cfg, op, 3, 3, 2, True, True, k, 64]
                yield ["sched", cfg, op, 2, 2, 3, True, False, k, 64]
                yield ["sched", cfg, op, 4, 2, 2, True, False, k, 64]
    if th:
        for op in OPS["clf"]:
            for k in range(128):
                yield ["sched", "ovr", op, 2, 2, 2, True, False, k, 128]
                yield ["sched", "ovr", op, 1, 3, 2, True, False, k, 128]


def judge_value(cfg, ne, op, got, what):
    f, ref = F[cfg, ne]
    want = ref[op]
    got = np.asarray(got)
    require(got.shape == want.shape and got.dtype == want.dtype, "%s: shape %s dtype %s instead of %s %s", what, got.shape,
            got.dtype, want.shape, want.dtype)
    if op in ("predict_proba", "predict") and got.dtype.kind == "f":
        bad = np.abs(got - want) > 1e-6 * (1 + np.abs(want))
    elif op == "predict":
        # ties of the highest probability are free
        if ref["proba"] is None:
            return
        p = ref["proba"]
        col = {c: j for j, c in enumerate(f.classes_.tolist())}
        bad = np.array([p[i, col[g]] < p[i].max() - 1e-6 for i, g in enumerate(got.tolist())])
    else:
        bad = (got != want) & ~((got != got) & (want != want))
    require(not bad.any(), "%s: %s at %s, sequentially %s", what, got[bad][:4], np.argwhere(bad)[:3].tolist(), want[bad][:4])


def check(case, ctx):
    kind, cfg, op = case[:3]
    if kind == "base":
        for ne in (1, 2, 3, 4):
            f, ref = F[cfg, ne]
            if ref["proba"] is None:
                raise SeamError("trees of the forest")
            p = ref.get("predict_proba", ref["predict"])
            require(np.allclose(np.asarray(p).reshape(len(p), -1), np.asarray(ref["proba"]).reshape(len(p), -1), atol=1e-6),
                    "the sequential prediction is not the mean of the trees")
        ctx.state(case)
        return
    ne, nj = case[3], case[4]
    f, ref = F[cfg, ne]
    if op not in ref:
        raise SeamError("no method " + op)
    Q = S.query(N)
    f.n_jobs = nj
    try:
        if kind == "jobs":
            with impl("%s(n_jobs=%d)" % (op, nj)):
                got = getattr(f, op)(Q)
            judge_value(cfg, ne, op, got, "%s with n_jobs=%d" % (op, nj))
            ctx.add("transitions")
            ctx.state(case)
            return
        bound, lines, jit, k, m = case[5:]

        def judge(s, got, exc):
            require(s.deadlock is None, "deadlock in %s: %s (schedule %s)", op, s.deadlock, sparse(s))
            with impl("%s under schedule %s" % (op, sparse(s))):
                if exc is not None:
                    raise exc
            if s.runs == 0:
                raise SeamError("%s does not use joblib's threading backend" % op)
            judge_value(cfg, ne, op, got, "%s, n_jobs=%d, schedule %s, tasks %s" % (op, nj, sparse(s), s.assigned))
            ctx.add("transitions", s.nsteps)
            ctx.beat()

        r = sched.explore(lambda: getattr(f, op)(Q), judge, bound=bound, shard=(k, m), lines=lines, jit=jit)
        ctx.add("schedules", r["schedules"])
        ctx.add("traces", r["schedules"])
        for a in r["assignments"]:
            ctx.state((cfg, op, ne, nj, a))
            ctx.outcome(a)
        if m > 1:
            ctx.state(case)
    finally:
        f.n_jobs = 1
