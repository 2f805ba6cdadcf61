"""C20: get_nodes, get_depth, get_n_leaves and weighted_depth describe the trees that predict."""
import copy
import itertools
import math
import pickle

import numpy as np

from wwmc import families as Fm, forestcheck, model as M, seam, treecheck as T, treefams
from wwmc.common import SeamError, Violation, impl, require

ASSUMPTIONS = [
    "the reported table is interpreted by the reference: samples are routed with the splits it reports, everything "
    "else it says is recomputed in float64",
    "node predictions of classifiers are reported as text with two digits, long category lists are elided by numpy",
]
B3 = [(0,), (1,), (2,)]
B4 = [(0,), (1,), (2,), (3,)]
B23 = list(itertools.product(range(2), range(3)))
NAMES = []


def setup(tier):
    th = tier == "thorough"
    d = dict(dirichlet=[0.5])
    aggs = dict(aggregation=[True, False])
    NAMES[:] = [
        Fm.fam("c2", "clf", B3, [0, 1], [False], Fm.combos(**d, **aggs), range(1, 5 if th else 4), range(1, 3)),
        Fm.fam("k3", "clf", B4, [0, 1, 2], [True], Fm.combos(**d, aggregation=[False], cat_split_strategy=["all"],
                                                         criterion=["entropy"]), range(2, 5 if th else 4), [1]),
        Fm.fam("m2", "clf", B23, [0, 1], [False, True], Fm.combos(**d, aggregation=[True]), range(2, 4 if th else 3), range(1, 3)),
        Fm.fam("r1", "reg", B3, [0.0, 1.0, 3.0], [False], Fm.combos(step=[1.0, 0.25] if th else [0.25], aggregation=[True]), range(2, 5 if th else 4), range(1, 3)),
        Fm.fam("rk", "reg", B3, [-1.0, 0.0, 2.0], [True], Fm.combos(aggregation=[True, False] if th else [True]), range(2, 5 if th else 4), range(1, 3)),
        Fm.fam("rw", "reg", B3, [0.0, 2.0], [False], Fm.combos(aggregation=[True]), range(2, 4), [1], weights=(0.5, 3.0)),
    ]
    try:
        seam._probe()
    except SeamError:
        pass


OPS = ["predict", "pickle", "copy", "lighten", "step", "apply", "dirichlet", "scribble"]


def cases(tier):
    th = tier == "thorough"
    for kind in ("clf", "reg", "ovr"):
        for cat in (0, 1):
            for agg in (True, False):
                for k in range(0, 4 if th else 3):
                    for ops in itertools.product(OPS, repeat=k):
                        yield ["ops", kind, cat, agg, list(ops)]
    for kind in ("clf", "reg"):
        for size in (3, 17, 120, 257) + ((600, 2100) if th else ()):
            for shape in ("chain", "wide", "cat"):
                yield ["big", kind, size, shape]
    yield from deep(th)
    yield from contrast(th)
    yield from itertools.islice(treefams.dims(th), 0, None, 1 if th else 3)
    yield from Fm.enum(NAMES)


def contrast(th):
    """every pair of in-bag and out-of-bag labellings of four bins: all orders of magnitude of the weights of a path"""
    for lab in itertools.product((0.0, 1.0, 4.0), repeat=4):
        if len(set(lab)) < 2:
            continue
        for val in itertools.product((0.0, 1.0, 4.0), repeat=4):
            for step in (2.0, 0.1) if th else (2.0,):
                yield dict(kind="reg", ncls=2, cat=[False], X=[[b] for b in range(4)] * 2, y=list(lab) + list(val),
                           w=[1.0] * 8, tr=list(range(4)), va=list(range(4, 8)),
                           cfg=dict(step=step, aggregation=True, dirichlet=0.5))


def deep(th):
    """one sample per bin and several lengths: deep trees, every labelling, out-of-bag labels against or with it"""
    n = 8 if th else 6
    for kind, labels in (("clf", [0, 1]), ("reg", [0.0, 2.0])):
        for cat in (False, True):
            for lab in itertools.product(labels, repeat=n):
                for vm in (0, 1):
                    vl = list(lab) if vm else list(lab[::-1])
                    yield dict(kind=kind, ncls=2, cat=[cat], X=[[b] for b in range(n)] * 2, y=list(lab) + vl,
                               w=[1.0] * (2 * n), tr=list(range(n)), va=list(range(n, 2 * n)),
                               cfg=dict(step=0.5, aggregation=True, dirichlet=0.5))


COLS = ("parent", "left_child", "right_child", "is_leaf", "is_left", "depth", "feature", "bin_threshold", "impurity",
        "loss_valid", "n_samples_train", "n_samples_valid", "w_samples_train", "w_samples_valid",
        "is_split_categorical", "bin_partition", "node_id", "log_weight_tree", "start_train", "end_train", "start_valid", "end_valid",
        "y_pred")


def table(df):
    """The table of get_nodes as lists; SeamError if it has another layout."""
    N = seam.Nodes()
    for c in ("parent", "left_child", "right_child", "is_leaf", "depth", "feature", "bin_threshold",
              "is_split_categorical", "bin_partition"):
        if c not in df.columns:
            raise SeamError("get_nodes has no column %s" % c)
    for c in COLS:
        setattr(N, c, df[c].tolist() if c in df.columns else None)
    N.n = len(df)
    N.partition = []
    for c, p, leaf in zip(N.is_split_categorical, N.bin_partition, N.is_leaf):
        if c and not leaf:
            if "..." in str(p):
                raise SeamError("elided partition")
            try:
                N.partition.append(frozenset(int(v) for v in str(p).strip("[]").replace(",", " ").split()))
            except ValueError:
                raise SeamError("get_nodes: partition %r" % (p,))
        else:
            N.partition.append(None)
    for c in ("left_child", "right_child", "parent", "depth"):
        setattr(N, c, [int(v) for v in getattr(N, c)])
    N.feature = [-1 if lf else int(f) for f, lf in zip(N.feature, N.is_leaf)]
    return N


def get_nodes(tree, i=None):
    if not hasattr(tree, "get_nodes"):
        raise SeamError("get_nodes")
    with impl("get_nodes"):
        return tree.get_nodes() if i is None else tree.get_nodes(i)


def check_table(N, case, ctx):
    kind, cfg = case["kind"], case["cfg"]
    agg = cfg.get("aggregation", True)
    ncls = case.get("ncls", 2)
    M.structure(N, len(case["X"][0]), case["cat"])
    ctr, _ = M.route(N, case["X"], case["tr"])
    cva, _ = M.route(N, case["X"], case["va"])
    sc = 1.0 if kind == "clf" else max(1e-30, max(abs(v) for v in case["y"]))
    preds = [M.node_pred(kind, ncls, cfg.get("dirichlet", 0.5), case["y"], case["w"], ctr[v]) for v in range(N.n)]
    for v in range(N.n):
        if N.node_id is not None:
            require(N.node_id[v] == v, "row %d has node_id %s", v, N.node_id[v])
        if N.is_left is not None and v != 0:
            p = N.parent[v]
            require(bool(N.is_left[v]) == (N.left_child[p] == v), "node %d is the %s child of %d but is_left=%s", v,
                    "left" if N.left_child[p] == v else "right", p, N.is_left[v])
        for name, got, want, tol in (
                ("n_samples_train", N.n_samples_train, len(ctr[v]), 0),
                ("n_samples_valid", N.n_samples_valid, len(cva[v]), 0),
                ("w_samples_train", N.w_samples_train, sum(case["w"][i] for i in ctr[v]), 1e-5),
                ("w_samples_valid", N.w_samples_valid if agg else None, sum(case["w"][i] for i in cva[v]), 1e-5)):
            if got is not None:
                require(abs(got[v] - want) <= tol * max(1.0, want), "node %d: %s is %s instead of %s", v, name, got[v], want)
        for s, e, n in (("start_train", "end_train", len(ctr[v])), ("start_valid", "end_valid", len(cva[v]))):
            if getattr(N, s) is not None and getattr(N, e) is not None:
                require(getattr(N, e)[v] - getattr(N, s)[v] == n, "node %d: %s=%s and %s=%s for %d samples", v, s,
                        getattr(N, s)[v], e, getattr(N, e)[v], n)
        if N.impurity is not None and v != 0:
            imp, _ = M.impurity(kind, cfg.get("criterion"), ncls, case["y"], case["w"], ctr[v])
            # float32 differences of sums over the parent
            ratio = sum(case["w"][i] for i in ctr[N.parent[v]]) / sum(case["w"][i] for i in ctr[v])
            require(abs(N.impurity[v] - imp) <= 2e-5 * max(1.0, ratio) * max(1.0, sc * sc), "node %d: impurity %s instead of %.8g", v,
                    N.impurity[v], imp)
        if preds[v] is None:
            continue
        if N.loss_valid is not None and agg:
            l, e = M.node_loss(kind, case["y"], case["w"], preds[v], cva[v])
            if l != math.inf:
                require(abs(N.loss_valid[v] - l) <= 2 * e + 1e-6, "node %d: loss_valid %s instead of %.8g", v,
                        N.loss_valid[v], l)
        if N.y_pred is not None:
            try:
                got = [float(a) for a in str(N.y_pred[v]).strip("[]").replace(",", " ").split()]
            except ValueError:
                got = None
            if got is not None:
                tol = (0.00501 if kind == "clf" else 2e-5 * sc) + 1e-6
                require(len(got) == len(preds[v]) and all(abs(a - b) <= tol for a, b in zip(got, preds[v])),
                        "node %d: y_pred %s instead of %s", v, N.y_pred[v], preds[v])
        ctx.state((kind, N.depth[v], N.is_leaf[v], len(ctr[v]), len(cva[v]), str(N.partition[v])))
    if agg and N.log_weight_tree is not None and all(p is not None for p in preds):
        step = cfg.get("step", 1.0)
        le = [M.node_loss(kind, case["y"], case["w"], preds[v], cva[v]) for v in range(N.n)]
        if all(l != math.inf for l, _ in le):
            lw, er = M.log_weights(N, [l for l, _ in le], [e for _, e in le], step)
            for v in range(N.n):
                require(abs(N.log_weight_tree[v] - lw[v]) <= 2 * er[v] + 1e-6 * (1 + abs(lw[v])),
                        "node %d: log_weight_tree %s instead of %.8g", v, N.log_weight_tree[v], lw[v])
            ctx.add("log_weights", N.n)
    ctx.add("transitions", N.n)
    return ctr, cva, preds


def check_paths(paths, rows, N, ctx):
    """The reported path of every row, against the table."""
    require(len(paths) == len(rows), "path_leaf gives %d paths for %d rows", len(paths), len(rows))
    for df, row in zip(paths, rows):
        want = M.path_of(N, row)[:-1]
        cols = set(df.columns)
        if not {"depth", "feature", "bin_threshold", "bin_partition", "is_split_categorical", "decision"} <= cols:
            raise SeamError("columns of path_leaf")
        require(len(df) == len(want), "the path of bins %s has %d splits, the tree %d", row, len(df), len(want))
        for r, v, nxt in zip(df.to_dict("records"), want, M.path_of(N, row)[1:]):
            cat = N.partition[v] is not None
            side = "left" if N.left_child[v] == nxt else "right"
            require(int(r["depth"]) == N.depth[v] and int(r["feature"]) == N.feature[v]
                    and bool(r["is_split_categorical"]) == cat and str(r["decision"]).startswith(side),
                    "bins %s: node %d of the path is reported as %s", row, v, r)
            got = str(r["bin_partition"]) if cat else int(r["bin_threshold"])
            if "..." not in str(got):
                got = frozenset(map(int, got.strip("[]").replace(",", " ").split())) if cat else got
                want_split = N.partition[v] if cat else int(N.bin_threshold[v])
                require(got == want_split, "bins %s: the split of node %d is reported as %s", row, v, r)
        ctx.add("paths")


def check_depths(tree, N, agg_case, preds, cva, ctx, fb=None, rows=None):
    true_depth = max(N.depth)
    leaves = sum(bool(v) for v in N.is_leaf)
    for name, want in (("get_depth", true_depth), ("get_actual_depth", true_depth), ("get_n_leaves", leaves)):
        if hasattr(tree, name):
            with impl(name):
                got = getattr(tree, name)()
            require(got == want, "%s() is %s, the tree has %s", name, got, want)
            ctx.add("depths")
    c = agg_case
    if not (hasattr(tree, "weighted_depth") and c["cfg"].get("aggregation", True) and c["kind"] == "reg"):
        return
    if any(p is None for p in preds):
        return
    step = c["cfg"].get("step", 1.0)
    loss, err = [], []
    for v in range(N.n):
        l, e = M.node_loss(c["kind"], c["y"], c["w"], preds[v], cva[v])
        loss.append(l)
        err.append(e)
    lw, le = M.log_weights(N, loss, err, step)
    dep = [[float(d)] for d in N.depth]
    if rows is None:
        rows = T.grid(c)
        fb = seam.bitarray(rows)
    with impl("weighted_depth"):
        W = np.asarray(tree.weighted_depth(fb), dtype=np.float64).reshape(-1)
    require(W.shape == (len(rows),), "weighted_depth has shape %s for %d rows", W.shape, len(rows))
    small = N.n <= 64 and M.n_prunings(N) <= 400
    for i, row in enumerate(rows):
        path = M.path_of(N, row)
        val, lo, hi = M.aggregated(N, loss, err, dep, lw, le, step, path)
        if small:
            bf = M.brute_force(N, loss, dep, step, path)
            if not lo[0] - 1e-6 * (1 + hi[0]) <= bf[0] <= hi[0] + 1e-6 * (1 + hi[0]):
                raise SeamError("model error: brute force and recursion disagree")
            ctx.add("brute_forced")
        if small and len(path) > 2:
            al = [M.sigmoid(-step * loss[v] - lw[N.left_child[v]] - lw[N.right_child[v]]) for v in path[:-1]]
            if any(a > 0.1 and min(al[k + 1:]) < 1e-4 for k, a in enumerate(al[:-1])):
                ctx.add("heavy_above_negligible")
        tol = (24 + 4 * len(path) + len(c["tr"])) * T.EPS * (1 + len(path)) + 1e-6
        require(lo[0] - tol <= W[i] <= hi[0] + tol,
                "weighted_depth %.8g at bins %s, the average over all prunings is %.8g", W[i], row, val[0])
    ctx.add("weighted_depths", len(rows))
    ctx.outcome(np.round(W, 5).tobytes())


def check(case, ctx):
    if isinstance(case, list) and case[0] == "ops":
        return check_ops(case, ctx)
    if isinstance(case, list) and case[0] == "big":
        return check_big(case, ctx)
    c = Fm.expand(case)
    tree = seam.fit_tree(c)
    N = table(get_nodes(tree))
    ctr, cva, preds = check_table(N, c, ctx)
    rows = T.grid(c)
    fb = seam.bitarray(rows)
    # the table is the tree that predicts
    A = seam.tree_apply(tree, fb)
    P = seam.tree_predict(tree, c["kind"], fb).reshape(len(rows), -1)
    agg = c["cfg"].get("aggregation", True)
    for a, p, row in zip(A, P, rows):
        lf = M.leaf_of(N, row)
        require(a == lf, "the reported splits send bins %s to leaf %d, apply says %d", row, lf, a)
        if not agg and preds[lf] is not None:
            require(max(abs(x - z) for x, z in zip(p, preds[lf])) <= 1e-4 * max(1.0, max(map(abs, c["y"]))),
                    "bins %s: prediction %s, the reported leaf gives %s", row, p, preds[lf])
    check_depths(tree, N, c, preds, cva, ctx)
    if hasattr(tree, "path_leaf"):
        some = rows if len(rows) <= 3 else [rows[0], rows[len(rows) // 2], rows[-1]]
        with impl("path_leaf"):
            paths = tree.path_leaf(np.array(some, dtype=np.uint8 if max(map(max, some)) < 256 else np.uint16))
        check_paths(paths, some, N, ctx)
    ctx.add("traces")


def check_big(case, ctx):
    _, kind, n, shape = case
    rng_lab = [(i * i // 3) % 2 if shape != "chain" else i % 2 for i in range(n)]
    if shape == "cat":
        n = min(n, 600)
    w = [float(np.float32(1.02 ** (i % 300))) if shape == "chain" else 1.0 for i in range(n)] * 2
    c = dict(kind=kind, ncls=2, cat=[shape == "cat"], X=[[i] for i in range(n)] * 2,
             y=[float(v) if kind == "reg" else v for v in rng_lab[:n]] * 2, w=w, tr=list(range(n)),
             va=list(range(n, 2 * n)), cfg=dict(aggregation=True, step=0.01, dirichlet=0.5))
    tree = seam.fit_tree(c)
    N = table(get_nodes(tree))
    ctr, cva, preds = check_table(N, c, ctx)
    check_depths(tree, N, c, preds, cva, ctx)
    ctx.add("traces")


def bins_of(f, X):
    enc = getattr(f, "_encoder", None)
    if enc is None:
        raise SeamError("encoder of the forest")
    return [tuple(int(v) for v in r) for r in seam.bitarray_to_array(enc.transform(X))]


def same(a, b):
    """None, or the column that differs (weights and predictions up to rounding)"""
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return "the shape"
    for c in a.columns:
        for u, v in zip(a[c].tolist(), b[c].tolist()):
            if u != v and not (u != u and v != v):
                if isinstance(u, float) and isinstance(v, float) and abs(u - v) <= 1e-5 * (1 + abs(v)):
                    continue
                if c == "y_pred" and isinstance(u, str):
                    try:
                        a2, b2 = ([float(t) for t in z.strip("[]").split()] for z in (u, v))
                    except ValueError:
                        return c
                    if len(a2) == len(b2) and all(abs(x - z) <= 0.011 for x, z in zip(a2, b2)):
                        continue
                return c
    return None


def forest(kind, cat, agg, step, dirichlet):
    n = 14
    X = np.array([[float((3 * i) % 7), float(i % 4)] for i in range(n)])
    y = np.array([(i + i // 3) % 3 for i in range(n)])
    y = y.astype(float) if kind == "reg" else y
    kw = dict(n_estimators=2, random_state=5 + cat, aggregation=agg, max_features=None, step=step,
              categorical_features=[False, bool(cat)])
    if kind == "ovr":
        kw["multiclass"] = "ovr"
    if kind != "reg":
        kw["dirichlet"] = dirichlet
    return X, forestcheck.fit_forest("reg" if kind == "reg" else "clf", X, y, None, **kw)


FRESH = {}


def fresh(*key):
    """the tables and weighted depths of a forest fitted with these parameters and never queried before"""
    if key not in FRESH:
        X, f = forest(*key)
        nt = len(f.trees)
        require(nt == 2 * (3 if key[0] == "ovr" else 1), "%d trees", nt)
        wd = None
        if key[0] == "reg" and key[2] and hasattr(f, "_weighted_depth"):
            with impl("_weighted_depth"):
                wd = np.array(f._weighted_depth(X))
            require(wd.shape == (nt, len(X)), "_weighted_depth has shape %s", wd.shape)
        FRESH[key] = [get_nodes(f, t) for t in range(nt)], wd
    return FRESH[key]


def check_ops(case, ctx):
    """The table of a forest is that of its current parameters, whatever queries and copies are made of it."""
    _, kind, cat, agg, ops = case
    step, diri, light = 1.0, 0.5, False
    X, f = forest(kind, cat, agg, step, diri)
    n = len(X)
    nt = len(f.trees)
    for k, op in enumerate([None] + list(ops)):
        done = list(ops)[:k]
        with impl(op or "fit"):
            if op == "predict":
                f.predict(X)
            elif op == "apply":
                f.apply(X)
            elif op == "pickle":
                f = pickle.loads(pickle.dumps(f))
            elif op == "copy":
                f = copy.deepcopy(f)
            elif op == "lighten":
                f.lighten()
                light = True
            elif op == "step":
                step = 2.0 if step == 1.0 else 1.0
                f.step = step
            elif op == "dirichlet" and kind != "reg" and not light:
                diri = 2.0 if diri == 0.5 else 0.5
                f.dirichlet = diri
            elif op == "scribble":
                for t in range(nt):
                    df = get_nodes(f, t)
                    df.iloc[:, :] = 0
        ref, wd = fresh(kind, cat, agg, step, diri)
        for t in range(nt):
            df = get_nodes(f, t)
            drop = [] if agg else [c for c in ("loss_valid", "log_weight_tree", "w_samples_valid") if c in df.columns]
            bad = same(df.drop(columns=drop), ref[t].drop(columns=drop))
            require(bad is None, "after %s get_nodes(%d) is not the table of a forest fitted with step=%s, dirichlet=%s: "
                    "%s differs", done, t, step, diri, bad)
            N = table(df)
            tree = f.trees[t]
            if hasattr(f, "path_leaf") and op in (None, "pickle", "lighten"):
                rows = bins_of(f, X[:4])
                with impl("path_leaf"):
                    paths = f.path_leaf(X[:4], t)
                check_paths(paths, rows, N, ctx)
            for name, want in (("get_depth", max(N.depth)), ("get_actual_depth", max(N.depth)),
                               ("get_n_leaves", sum(map(bool, N.is_leaf)))):
                if hasattr(tree, name):
                    with impl(name):
                        got = getattr(tree, name)()
                    require(got == want, "after %s: %s() is %s, the tree has %s", done, name, got, want)
        if wd is not None and hasattr(f, "_weighted_depth"):
            with impl("_weighted_depth"):
                got = np.array(f._weighted_depth(X))
            require(got.shape == wd.shape and np.allclose(got, wd, rtol=0, atol=1e-4),
                    "after %s the weighted depths are not those of a forest fitted with step=%s", done, step)
            with impl("apply"):
                A = np.asarray(f.apply(X))
            for t in range(nt):
                dep = ref[t]["depth"].tolist()
                for i in range(n):
                    require(-1e-4 <= got[t, i] <= dep[int(A[t, i])] + 1e-4,
                            "weighted depth %s of a sample whose leaf has depth %s", got[t, i], dep[int(A[t, i])])
    ctx.add("transitions", len(ops) * nt)
    ctx.add("traces")
    ctx.state((kind, cat, agg, tuple(ops)))
