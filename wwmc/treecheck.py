"""Oracles for one grown tree (properties C01-C04, C16, C19)."""
import itertools
import math

import numpy as np

from wwmc import model as M, seam
from wwmc.common import Violation, SeamError, require

EPS = M.EPS


def grid(case, extra=1, limit=96):
    """All rows of bins 0..max+extra per feature (capped by thinning the bins that are not used)."""
    X = case["X"]
    F = len(X[0])
    used = [sorted(set(r[f] for r in X)) for f in range(F)]
    axes = []
    for f in range(F):
        mx = used[f][-1]
        ax = list(range(mx + 1 + extra)) if mx <= 8 else sorted(
            set(v for u in used[f] for v in (u - 1, u, u + 1) if v >= 0))
        axes.append(ax)
    n = 1
    for ax in axes:
        n *= len(ax)
    if n <= limit:
        return [list(r) for r in itertools.product(*axes)]
    rows = [list(r) for r in X]
    base = list(X[0])
    for f in range(F):
        for v in axes[f]:
            r = list(base)
            r[f] = v
            rows.append(r)
    out, seen = [], set()
    for r in rows:
        if tuple(r) not in seen:
            seen.add(tuple(r))
            out.append(r)
    return out[:4 * limit]


class Grown:
    def __init__(self, case):
        self.case = case
        self.tree = seam.fit_tree(case)
        self.N = seam.tree_nodes(self.tree)
        self.cells()

    def cells(self):
        case, N = self.case, self.N
        M.structure(N, len(case["X"][0]), case["cat"])
        self.ctr, self.leaf_tr = M.route(N, case["X"], case["tr"])
        self.cva, self.leaf_va = M.route(N, case["X"], case["va"])

    def preds(self):
        c = self.case
        out = []
        for v in range(self.N.n):
            require(len(self.ctr[v]) > 0, "node %d has no in-bag sample", v)
            out.append(M.node_pred(c["kind"], c.get("ncls", 2), c["cfg"].get("dirichlet", 0.5),
                                   c["y"], c["w"], self.ctr[v]))
        return out

    def scale(self):
        return 1.0 if self.case["kind"] == "clf" else max(1e-30, max(abs(v) for v in self.case["y"]))


def from_forest_tree(tree, case):
    g = Grown.__new__(Grown)
    g.case = case
    g.tree = tree
    g.N = seam.tree_nodes(tree)
    g.cells()
    return g


def rows_pred(g, rows, fb=None):
    fb = seam.bitarray(rows) if fb is None else fb
    P = seam.tree_predict(g.tree, g.case["kind"], fb)
    P = P.reshape(len(rows), -1)
    return P


def check_aggregation(g, ctx, rows=None, fb=None, brute_limit=400):
    """C01: predictions are the average over all prunings."""
    c, N = g.case, g.N
    kind = c["kind"]
    step = c["cfg"].get("step", 1.0)
    preds = g.preds()
    if any(p is None for p in preds):
        return
    loss, err = [], []
    for v in range(N.n):
        l, e = M.node_loss(kind, c["y"], c["w"], preds[v], g.cva[v])
        loss.append(l)
        err.append(e)
    lw, le = M.log_weights(N, loss, err, step)
    rows = grid(c) if rows is None else rows
    P = rows_pred(g, rows, fb)
    sc = g.scale()
    K = len(preds[0])
    require(P.shape[1] == K, "prediction has %d components instead of %d", P.shape[1], K)
    nb = M.n_prunings(N) if N.n <= 64 else math.inf
    memo = {}
    for i, row in enumerate(rows):
        path = M.path_of(N, row)
        lf = path[-1]
        if lf not in memo:
            val, lo, hi = M.aggregated(N, loss, err, preds, lw, le, step, path)
            if nb <= brute_limit:
                bf = M.brute_force(N, loss, preds, step, path)
                for a, b, d in zip(bf, lo, hi):
                    if not (b - 1e-7 * sc <= a <= d + 1e-7 * sc):
                        raise SeamError("model error: brute force and recursion disagree")
                ctx.add("brute_forced_leaves")
                ctx.add("prunings_summed", nb)
                val = bf
            hull = [(min(preds[v][k] for v in path), max(preds[v][k] for v in path)) for k in range(K)]
            memo[lf] = (val, lo, hi, hull)
        val, lo, hi, hull = memo[lf]
        tol = (24 + 4 * len(path) + len(c["tr"])) * EPS * sc + 1e-6 * sc
        for k in range(K):
            p = P[i, k]
            require(p == p, "prediction at bins %s is nan", row)
            require(hull[k][0] - tol <= p <= hull[k][1] + tol,
                    "prediction %.8g at bins %s is outside the hull [%.8g, %.8g] of its path",
                    p, row, hull[k][0], hull[k][1])
            require(lo[k] - tol <= p <= hi[k] + tol,
                    "prediction %.9g at bins %s (component %d) but the average over all prunings is %.9g",
                    p, row, k, val[k])
    ctx.add("transitions", len(rows))
    ctx.outcome(np.round(P, 5).tobytes())
    ctx.state((kind, tuple(len(x) for x in g.ctr), tuple(round(x, 4) for x in loss), step))


def check_node_predictions(g, ctx, rows=None, fb=None):
    """C02: node predictions are in-bag statistics; without aggregation trees predict with their leaves."""
    c, N = g.case, g.N
    preds = g.preds()
    sc = g.scale()
    tol = (16 + 2 * len(c["tr"])) * EPS * sc + 1e-7 * sc
    if N.y_pred is not None:
        for v in range(N.n):
            if preds[v] is None:
                continue
            got = N.y_pred[v]
            got = got if isinstance(got, list) else [got]
            require(len(got) == len(preds[v]), "node %d predicts %d values", v, len(got))
            for k, (a, b) in enumerate(zip(got, preds[v])):
                require(abs(a - b) <= tol, "node %d predicts %.9g for component %d, its in-bag samples give %.9g",
                        v, a, k, b)
            ctx.state((c["kind"], tuple(round(x, 5) for x in preds[v]), c["cfg"].get("dirichlet")))
        ctx.add("transitions", N.n)
    if not c["cfg"].get("aggregation", True):
        rows = grid(c) if rows is None else rows
        P = rows_pred(g, rows, fb)
        for i, row in enumerate(rows):
            lf = M.leaf_of(N, row)
            if preds[lf] is None:
                continue
            for k in range(len(preds[lf])):
                require(abs(P[i, k] - preds[lf][k]) <= tol,
                        "aggregation=False: prediction %.9g at bins %s, its leaf predicts %.9g",
                        P[i, k], row, preds[lf][k])
        ctx.add("leaf_predictions", len(rows))
        ctx.outcome(np.round(P, 5).tobytes())


def check_partition(g, ctx, rows=None, fb=None):
    """C03: recursive partition, recorded counts, limits, apply."""
    c, N = g.case, g.N
    cfg = c["cfg"]
    agg = cfg.get("aggregation", True)
    mss, msl = cfg.get("min_samples_split", 2), cfg.get("min_samples_leaf", 1)
    md = cfg.get("max_depth")
    for v in range(N.n):
        nt, nv = len(g.ctr[v]), len(g.cva[v])
        require(N.n_samples_train[v] == nt, "node %d records %s in-bag samples, it has %d",
                v, N.n_samples_train[v], nt)
        require(N.n_samples_valid[v] == nv, "node %d records %s out-of-bag samples, it has %d",
                v, N.n_samples_valid[v], nv)
        wt = sum(c["w"][i] for i in g.ctr[v])
        require(abs(N.w_samples_train[v] - wt) <= 1e-5 * max(1.0, wt),
                "node %d records the in-bag weight %s, it has %s", v, N.w_samples_train[v], wt)
        if agg:
            wv = sum(c["w"][i] for i in g.cva[v])
            require(abs(N.w_samples_valid[v] - wv) <= 1e-5 * max(1.0, wv),
                    "node %d records the out-of-bag weight %s, it has %s", v, N.w_samples_valid[v], wv)
        require(nt >= 1, "node %d has no in-bag sample", v)
        require(md is None or N.depth[v] <= md, "node %d has depth %s > max_depth", v, N.depth[v])
        if not N.is_leaf[v]:
            require(nt >= mss, "node %d is split with %d in-bag samples", v, nt)
            if agg:
                require(nv >= mss, "node %d is split with %d out-of-bag samples", v, nv)
            for ch in (N.left_child[v], N.right_child[v]):
                require(len(g.ctr[ch]) >= msl, "child %d has %d in-bag samples", ch, len(g.ctr[ch]))
                if agg:
                    require(len(g.cva[ch]) >= msl, "child %d has %d out-of-bag samples", ch, len(g.cva[ch]))
        ctx.state((nt, nv, N.depth[v], N.is_leaf[v], N.feature[v], N.is_split_categorical[v]))
    ctx.add("transitions", N.n)
    rows = grid(c) if rows is None else rows
    fb = seam.bitarray(rows) if fb is None else fb
    A = seam.tree_apply(g.tree, fb)
    require(len(A) == len(rows), "apply returned %d values for %d rows", len(A), len(rows))
    for a, row in zip(A, rows):
        lf = M.leaf_of(N, row)
        require(a == lf, "apply sends bins %s to node %s instead of leaf %d", row, a, lf)
    ctx.add("routed_rows", len(rows))
    ctx.outcome(tuple(A))


def check_splits(g, ctx, max_features=None):
    """C04 (and C16 with max_features < number of features)."""
    c, N = g.case, g.N
    cfg = c["cfg"]
    kind, ncls, crit = c["kind"], c.get("ncls", 2), cfg.get("criterion")
    agg = cfg.get("aggregation", True)
    mss = cfg.get("min_samples_split", 2)
    md = cfg.get("max_depth")
    F = len(c["X"][0])
    m = F if max_features is None else max_features
    y2 = 1.0 if kind == "clf" else max(1e-30, max(v * v for v in c["y"]))
    for v in range(N.n):
        tr, va = g.ctr[v], g.cva[v]
        W = sum(c["w"][i] for i in tr)
        tol = 3e-6 * max(W, 1.0) * y2
        imp, _ = M.impurity(kind, crit, ncls, c["y"], c["w"], tr)
        small = len(tr) < mss or (agg and len(va) < mss)
        deep = md is not None and N.depth[v] >= md
        pure = imp <= 1e-6 * y2
        exact_pure = imp == 0.0 and v != 0
        per = None
        if not N.is_leaf[v]:
            require(not small and not deep, "node %d is split although it is too small or too deep", v)
            f = N.feature[v]
            L, R = g.ctr[N.left_child[v]], g.ctr[N.right_child[v]]
            if pure and v != 0:
                # float32 rounding may leave a tiny impurity: only exactly representable data is strict
                require(not (exact_pure and c.get("exact", True)), "node %d is split although it is pure", v)
            got, wl, wr = M.cost(kind, crit, ncls, c["y"], c["w"], L, R)
            require(wl > 0 and wr > 0 or W <= 0, "node %d has a child without weight", v)
            per = [M.best_of_feature(c, k, tr, va) for k in range(F)]
            if m == F:
                best = min([b for b in per if isinstance(b, float)], default=math.inf)
                require(got <= best + tol,
                        "node %d: split on feature %d has impurity %.8g, the best admissible split has %.8g",
                        v, f, got, best)
            else:
                worse = sum(1 for k in range(F) if k != f and
                            (not isinstance(per[k], float) or per[k] >= got - tol))
                require(worse >= m - 1,
                        "node %d: feature %d cannot be the best of %d distinct features (costs %s, got %.8g)",
                        v, f, m, per, got)
            if c["cat"][f]:
                bins, fams = M.feature_orders(c, f, tr)
                if all(o is not None for o in fams):
                    lb = frozenset(c["X"][i][f] for i in L)
                    ok = any(frozenset(bins[j] for j in o[:len(lb)]) == lb for fam in fams for o in fam)
                    require(ok, "node %d: the categories %s are not a prefix of the sorted categories",
                            v, sorted(lb))
            ctx.add("splits_checked")
            ctx.state((kind, crit, f, round(got, 4), len(L), len(R), len(va)))
        else:
            ctx.add("leaves_checked")
            if small or deep or (pure and v != 0):
                continue
            per = [M.best_of_feature(c, k, tr, va) for k in range(F)]
            good = [k for k in range(F) if isinstance(per[k], float)]
            if m == F:
                require(not good, "node %d is a leaf although feature %s has an admissible split (cost %s)",
                        v, good[:1], [per[k] for k in good[:1]])
            else:
                require(F - len(good) >= m,
                        "node %d is a leaf although any %d features contain one with an admissible split", v, m)
    ctx.add("transitions", N.n)
    ctx.outcome((tuple(N.feature), tuple(N.bin_threshold), tuple(map(str, N.partition))))
