"""The only place that touches private names of wildwood.  Every access is guarded: if a name has
gone (refactoring) SeamError is raised, or a public substitute is used."""
import inspect

import numpy as np

from wwmc.common import SeamError, Violation, impl

CRIT = {"gini": "gini", "entropy": "entropy", "mse": "mse"}
MODE = {"tree": None}


def _tree_classes():
    try:
        from wildwood.tree import TreeClassifier, TreeRegressor
        from wildwood._utils import split_strategy_mapping, criteria_mapping
        return TreeClassifier, TreeRegressor, split_strategy_mapping, criteria_mapping
    except ImportError as e:
        raise SeamError("tree classes: %s" % e)


def bitarray(X):
    try:
        from wildwood.preprocessing.features_bitarray import array_to_bitarray
    except ImportError as e:
        raise SeamError("array_to_bitarray: %s" % e)
    X = np.asarray(X)
    mx = int(X.max()) if X.size else 0
    dt = np.uint8 if mx < 256 else np.uint16 if mx < 65536 else np.uint32
    with impl("array_to_bitarray"):
        return array_to_bitarray(np.asfortranarray(X, dtype=dt))


def bitarray_to_array(fb):
    try:
        from wildwood.preprocessing import features_bitarray_to_array
    except ImportError as e:
        raise SeamError("features_bitarray_to_array: %s" % e)
    with impl("features_bitarray_to_array"):
        return features_bitarray_to_array(fb)


DEFAULTS = dict(criterion=None, step=1.0, aggregation=True, dirichlet=0.5, max_depth=None,
                min_samples_split=2, min_samples_leaf=1, max_features=None, random_state=7,
                cat_split_strategy="binary")


def make_tree(kind, n_classes, n_features, cat, cfg):
    C, R, strat, crit = _tree_classes()
    c = dict(DEFAULTS)
    c.update(cfg)
    args = dict(
        n_classes=n_classes,
        criterion=crit[c["criterion"] or ("gini" if kind == "clf" else "mse")],
        loss="log" if kind == "clf" else "mse",
        step=c["step"], aggregation=c["aggregation"], dirichlet=c["dirichlet"],
        max_depth=np.iinfo(np.intp).max if c["max_depth"] is None else c["max_depth"],
        min_samples_split=c["min_samples_split"], min_samples_leaf=c["min_samples_leaf"],
        categorical_features=None, is_categorical=np.array(cat, dtype=np.bool_),
        max_features=n_features if c["max_features"] is None else c["max_features"],
        random_state=np.uint32(c["random_state"]),
        cat_split_strategy=strat[c["cat_split_strategy"]], verbose=0)
    cls = C if kind == "clf" else R
    sig = inspect.signature(cls.__init__).parameters
    if not any(p.kind == p.VAR_KEYWORD for p in sig.values()):
        args = {k: v for k, v in args.items() if k in sig}
    try:
        return cls(**args)
    except TypeError as e:
        raise SeamError("tree constructor: %s" % e)


def fit_tree(case, fb=None):
    """Grows one tree at the level of wildwood.tree.  case: kind, ncls, X (bins), cat, y, w, tr, va, cfg"""
    X = case["X"]
    if fb is None:
        fb = bitarray(X)
    t = make_tree(case["kind"], case.get("ncls", 2), len(X[0]), case["cat"], case["cfg"])
    y = np.array(case["y"], dtype=np.float32)
    w = np.array(case["w"], dtype=np.float32)
    tr = np.array(case["tr"], dtype=np.uintp)
    va = np.array(case["va"], dtype=np.uintp)
    if not MODE.get("tree_fit_ok"):
        _probe()
    with impl("growing a tree"):
        t.fit(fb, y, tr, va, w)
    return t


def _probe():
    """Is the tree-level entry point usable at all?  Decided once, on a trivial input."""
    if MODE.get("tree_fit_ok") is None:
        MODE["tree_fit_ok"] = False
        try:
            X = np.array([[0], [1], [0], [1]], dtype=np.uint8)
            for kind in ("clf", "reg"):
                t = make_tree(kind, 2, 1, [False], {})
                t.fit(bitarray(X), np.array([0, 1, 0, 1], dtype=np.float32),
                      np.array([0, 1], dtype=np.uintp), np.array([2, 3], dtype=np.uintp),
                      np.ones(4, dtype=np.float32))
                tree_nodes(t)
            MODE["tree_fit_ok"] = True
        except Exception as e:  # noqa: BLE001
            MODE["tree_fit_err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    if not MODE["tree_fit_ok"]:
        raise SeamError("tree-level fit: " + MODE.get("tree_fit_err", ""))


FIELDS = ("parent", "left_child", "right_child", "is_leaf", "depth", "feature", "bin_threshold",
          "impurity", "loss_valid", "n_samples_train", "n_samples_valid", "w_samples_train",
          "w_samples_valid", "is_split_categorical")


class Nodes:
    """Plain lists, one entry per node."""


def _raw(tree):
    raw = getattr(tree, "_tree_classifier", None)
    if raw is None:
        raw = getattr(tree, "_tree_regressor", None)
    return raw


def tree_nodes(tree):
    N = Nodes()
    raw = _raw(tree)
    try:
        n = int(raw.node_count)
        a = raw.nodes[:n]
        for f in FIELDS:
            setattr(N, f, a[f].tolist())
        s, e = a["bin_partition_start"].tolist(), a["bin_partition_end"].tolist()
        bp = raw.bin_partitions.tolist()
        N.partition = [frozenset(bp[i:j]) if c else None
                       for i, j, c in zip(s, e, N.is_split_categorical)]
        yp = np.asarray(raw.y_pred[:n], dtype=np.float64)
        N.y_pred = yp.tolist()
        N.n = n
        if len(N.parent) != n:
            raise Violation("node_count=%d but %d nodes stored" % (n, len(N.parent)))
        return N
    except (AttributeError, KeyError, ValueError, IndexError, TypeError):
        pass
    try:
        df = tree.get_nodes()
        for f in FIELDS:
            setattr(N, f, df[f].tolist())
        N.n = len(df)
        part = []
        for c, p in zip(N.is_split_categorical, df["bin_partition"].tolist()):
            if c:
                if "..." in str(p):
                    raise SeamError("long partition")
                part.append(frozenset(int(v) for v in str(p).strip("[]").replace(",", " ").split()))
            else:
                part.append(None)
        N.partition = part
        N.y_pred = None
        return N
    except SeamError:
        raise
    except Exception as e:  # noqa: BLE001
        raise SeamError("nodes: %s" % e)


def tree_predict(tree, kind, fb):
    name = "predict_proba" if kind == "clf" else "predict"
    if not hasattr(tree, name):
        raise SeamError("tree.%s" % name)
    with impl("tree.%s" % name):
        return np.asarray(getattr(tree, name)(fb), dtype=np.float64)


def tree_apply(tree, fb):
    if not hasattr(tree, "apply"):
        raise SeamError("tree.apply")
    with impl("tree.apply"):
        return np.asarray(tree.apply(fb)).astype(np.int64).tolist()


def tree_bags(tree):
    """In-bag and out-of-bag indices of a fitted tree of a forest."""
    tr, va = getattr(tree, "_train_indices", None), getattr(tree, "_valid_indices", None)
    if tr is None or va is None:
        raise SeamError("tree indices")
    return [int(i) for i in tr], [int(i) for i in va]


def ref_bootstrap(seed, n):
    """Reference bootstrap: n draws with replacement, again with the next seed if the complement is empty."""
    while True:
        c = np.bincount(np.random.RandomState(seed).randint(0, n, n), minlength=n)
        if (c == 0).any():
            return c.tolist()
        seed = (seed + 1) % np.iinfo(np.uint32).max


def forest_seeds(f):
    s = getattr(f, "_random_states_bootstrap", None)
    if s is None:
        raise SeamError("bootstrap seeds")
    return [int(v) for v in s]
