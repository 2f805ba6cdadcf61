"""C17: Dataset.extract splits and encodes without losing or mixing rows."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from wwmc.common import require, impl

ASSUMPTIONS = [
    "random_state is an integer; with random_state=None nothing is claimed about the split",
    "rows are identified by a reference extraction of the same labels with an identifier column, which is "
    "what 'the split depends only on random_state' means",
    "pd_df_categories is only used with one_hot_encode=False, sparse=False and no missing category (as in the "
    "repository's own use of it); categorical columns have string names",
    "a sparse block that drop leaves without any column (one category in the training rows) is not explored: "
    "scikit-learn itself cannot represent it",
    "bundled loaders only: the ones that need the network are covered by C18",
]

# ---------------------------------------------------------------- frames
LABELS = {
    "b0": ["no", "yes", "no", "yes", "no", "yes", "no", "yes"],
    "b1": [1, 1, 1, 1, 0, 0, 1, 1, 1],
    "b2": [True, False, False, False, True, False, False, True],
    "m0": ["b", "a", "c", "a", "b", "c", "c", "b", "a"],
    "m1": [30, 10, 20, 20, 10, 30, 30, 30, 30, 10, 20, 10],
    "r0": [0.5, -1.25, 3.0, 3.0, 1e6, 0.0, 2.5, -7.0],
    "r1": [3, 1, 2, 2, 1, 3, 7, 9, -4],
}
TASK = {"b": "binary-classification", "m": "multiclass-classification", "r": "regression"}
CONT = ["id", "k", "f", "i"]
CAT = ["s", "t", "z", "n", "u"]


def column(name, n):
    i = np.arange(n)
    if name == "id":
        return pd.Series(1000.0 + 7.0 * ((i * 5) % 13) + i * 100.0)
    if name == "k":
        return pd.Series(np.full(n, 4.0))
    if name == "f":
        return pd.Series(((i * i) % 7 - 2.5).astype(np.float32))
    if name == "i":
        return pd.Series((i * 3) % 5)
    if name == "s":
        return pd.Series(["xyz"[v % 3] for v in i]).astype("category")
    if name == "t":
        # 0 and 1: two categories
        return pd.Series([(v // 2) % 2 for v in i]).astype("category")
    if name == "z":
        # one rare category
        return pd.Series(["rare" if v == 2 else "aa" if v % 2 else "bb" for v in i]).astype("category")
    if name == "n":
        return pd.Series([None if v % 4 == 1 else "pq"[v % 2 if v % 3 else 0] for v in i]).astype("category")
    if name == "u":
        # a category dtype with an unused category, categories not sorted
        return pd.Series(pd.Categorical(["gh"[v % 2] for v in i], categories=["h", "never", "g"]))
    raise KeyError(name)


def frame(order, lab, index):
    y = LABELS[lab]
    n = len(y)
    df = pd.DataFrame({c: (pd.Series(y) if c == "y" else column(c, n)) for c in order})
    if index == 1:
        df.index = [100 - 3 * k for k in range(n)]
    elif index == 2:
        df.index = [k // 2 for k in range(n)]
    return df


def make(df, task, cont, cat, cfg, label="y", test_size=0.3):
    from wildwood.datasets.dataset import Dataset
    std, onehot, drop, sparse, pdc = cfg
    ds = Dataset("d", task, label_column=label, continuous_columns=cont, categorical_columns=cat,
                 test_size=test_size, standardize=std, one_hot_encode=onehot, drop=drop, sparse=sparse,
                 pd_df_categories=pdc)
    ds.df_raw = df
    return ds


_split = {}


def ref_split(labels, task, test_size, rs):
    """Rows (positions) of train and test, from an extraction with an identifier column only."""
    labels = list(labels)
    key = (tuple(map(repr, labels)), task, test_size, rs)
    if key not in _split:
        n = len(labels)
        df = pd.DataFrame({"rowid": np.arange(n, dtype=float), "y": labels})
        ds = make(df, task, ["rowid"], None, (False, False, None, False, False), test_size=test_size)
        with impl("extract"):
            a, b, ya, yb = ds.extract(random_state=rs)
        tr = [int(v) for v in np.asarray(a).ravel()]
        te = [int(v) for v in np.asarray(b).ravel()]
        require(sorted(tr + te) == list(range(n)), "train %s and test %s do not partition %d rows", tr, te, n)
        want = test_size * n if isinstance(test_size, float) else test_size
        require(abs(len(te) - want) < 1, "test has %d rows of %d, asked %s", len(te), n, test_size)
        if task != "regression":
            frac = len(te) / n
            for c in set(labels):
                nc = labels.count(c)
                k = sum(labels[i] == c for i in te)
                require(abs(k - frac * nc) < 1 + 1e-9, "class %r: %d of %d in a test set of %d/%d", c, k, nc,
                        len(te), n)
        if len(_split) > 20000:
            _split.clear()
        _split[key] = tr, te
    return _split[key]


def dense(X):
    if hasattr(X, "toarray"):
        X = X.toarray()
    return np.asarray(X)


def isna(v):
    return v is None or v != v


def check_extract(ds, df, rs, ctx, deep=True):
    """One extraction against the definition. ds.df_raw must be df; returns the arrays."""
    task, label = ds.task, ds.label_column
    before = df.copy(deep=True)
    if ds.one_hot_encode and ds.sparse and ds.drop:
        tr, _ = ref_split(df[label].tolist(), task, ds.test_size, rs)
        if any(len(set(df[c].iloc[tr].astype(str))) < 2 for c in ds.categorical_columns or []):
            ctx.add("sparse_empty_block")
            return None
    with impl("extract"):
        out = ds.extract(random_state=rs)
    require(len(out) == 4, "extract returned %d objects", len(out))
    Xtr, Xte, ytr, yte = out
    if deep:
        require(ds.df_raw is df and df.equals(before) and list(df.columns) == list(before.columns)
                and (df.dtypes == before.dtypes).all() and df.index.equals(before.index), "df_raw was modified")
    ylab = df[label].tolist()
    n = len(ylab)
    tr, te = ref_split(ylab, task, ds.test_size, rs)
    ctx.outcome((tuple(tr), len(te)))
    cont = list(ds.continuous_columns or [])
    cat = list(ds.categorical_columns or [])
    if ds.pd_df_categories:
        require(isinstance(Xtr, pd.DataFrame) and isinstance(Xte, pd.DataFrame), "no dataframe")
        for X in (Xtr, Xte):
            require(list(X.columns) == list(ds.columns_), "columns %s, columns_ %s", list(X.columns), ds.columns_)
            for c in cat:
                require(X[c].dtype.name == "category", "column %r is not a category", c)
            for c in cont:
                require(X[c].dtype.name != "category", "column %r is a category", c)
    A, B = dense(Xtr).astype(float), dense(Xte).astype(float)
    require(A.shape[0] == len(tr) and B.shape[0] == len(te), "rows %d + %d instead of %d + %d", A.shape[0], B.shape[0],
            len(tr), len(te))
    cols = list(ds.columns_)
    require(A.shape[1] == B.shape[1] == len(cols), "%d and %d columns, columns_ declares %d", A.shape[1], B.shape[1],
            len(cols))
    require(ds.n_columns_ == len(cols), "n_columns_ %s", ds.n_columns_)
    require(len(set(cols)) == len(cols), "duplicate names in columns_ %s", cols)
    require(ds.n_samples_in_ == n and ds.n_samples_train_ == len(tr) and ds.n_samples_test_ == len(te), "n_samples")
    require(ds.n_features_categorical_ == len(cat) and ds.n_features_continuous_ == len(cont)
            and ds.n_features_in_ == len(cat) + len(cont), "n_features: %s categorical %s continuous %s",
            ds.n_features_categorical_, ds.n_features_continuous_, ds.n_features_in_)
    require(sorted(map(str, ds.categorical_columns_)) == sorted(map(str, cat)), "categorical_columns_ %s",
            ds.categorical_columns_)
    require(sorted(map(str, ds.continuous_columns_)) == sorted(map(str, cont)), "continuous_columns_ %s",
            ds.continuous_columns_)
    mask = ds.categorical_features_
    used = []
    iscat = []
    C = np.concatenate([A, B], axis=0)
    rows = tr + te
    for j, name in enumerate(cols):
        if name in cont:
            used.append(name)
            iscat.append(False)
            v = df[name].to_numpy(dtype=float)
            if ds.standardize:
                t = v[tr]
                m, s = t.mean(), t.std()
                if s <= 1e-12 * max(1.0, abs(m)):
                    s = 1.0
                exp = (v - m) / s
            else:
                exp = v
            tol = 2e-4 if df[name].dtype == np.float32 else 1e-8
            got = C[:, j]
            ok = np.abs(got - exp[rows]) <= tol * (1 + np.abs(exp[rows]))
            require(ok.all(), "column %r is %s, should be %s for rows %s", name, got[:12], exp[rows][:12], rows[:12])
        elif name in cat and not ds.one_hot_encode:
            used.append(name)
            iscat.append(True)
            codes = {}
            v = df[name].tolist()
            known = {("nan" if isna(v[i]) else v[i]) for i in tr}
            for r, g in zip(rows, C[:, j]):
                k = "nan" if isna(v[r]) else v[r]
                if k not in known:
                    require(k == "nan" or not np.isnan(g), "unknown category became missing")
                    g = "nan" if np.isnan(g) else g
                    require(codes.setdefault("unknown", g) == g, "unknown categories of %r: %s", name, g)
                    continue
                gg = "nan" if np.isnan(g) else g
                require(codes.setdefault(k, gg) == gg, "column %r: category %r encoded as %s and %s", name, k,
                        codes[k], g)
            vals = list(codes.values())
            require(len(set(vals)) == len(vals), "column %r: categories encoded alike: %s", name, codes)
    if ds.one_hot_encode:
        for c in cat:
            js = [j for j, nm in enumerate(cols) if isinstance(nm, str) and nm not in cont
                  and (nm == c or nm.rsplit("#", 1)[0] == c)]
            used += [cols[j] for j in js]
            block = C[:, js]
            require(((block == 0) | (block == 1)).all(), "one-hot block of %r holds other values than 0 and 1", c)
            v = [("nan" if isna(x) else x) for x in df[c].tolist()]
            known = []
            for i in tr:
                if v[i] not in known:
                    known.append(v[i])
            codes = {}
            for r, g in zip(rows, block):
                g = tuple(g)
                if v[r] not in known:
                    require(sum(g) == 0, "unknown category %r of %r encoded as %s", v[r], c, g)
                    continue
                require(sum(g) <= 1, "category %r of %r encoded as %s", v[r], c, g)
                require(codes.setdefault(v[r], g) == g, "category %r of %r has two codes", v[r], c)
            require(len(set(codes.values())) == len(codes), "categories of %r encoded alike: %s", c, codes)
            zeros = [k for k, g in codes.items() if sum(g) == 0]
            nd = 1 if (ds.drop == "first" or (ds.drop == "if_binary" and len(known) == 2)) else 0
            require(len(zeros) <= nd, "categories %s of %r are encoded by zeros", zeros, c)
            require(len(js) == len(known) - nd, "%d columns for %d categories of %r", len(js), len(known), c)
    else:
        if cat:
            require(mask is not None and len(mask) == len(cols) and [bool(b) for b in mask] == iscat,
                    "categorical_features_ %s for columns %s", mask, cols)
    if ds.one_hot_encode or not cat:
        require(mask is None or not np.any(mask), "categorical_features_ %s but no categorical column is returned", mask)
    require(sorted(map(str, used)) == sorted(map(str, cols)), "columns %s, recognised only %s", cols, used)
    require(label not in cols, "the label is among the features")
    if not ds.one_hot_encode:
        require(sorted(map(str, cols)) == sorted(map(str, cat + cont)), "columns_ %s", cols)
    ya, yb = np.asarray(ytr).ravel(), np.asarray(yte).ravel()
    require(len(ya) == len(tr) and len(yb) == len(te), "lengths of the labels")
    yy = np.concatenate([ya, yb])
    if task == "regression":
        require(np.array_equal(yy.astype(float), np.array([ylab[i] for i in rows], dtype=float)), "labels %s of rows %s",
                yy[:12], rows[:12])
    else:
        classes = list(ds.classes_)
        require(classes == sorted(set(ylab)) and ds.n_classes_ == len(classes), "classes_ %s", classes)
        require(np.issubdtype(yy.dtype, np.integer) and set(yy.tolist()) <= set(range(len(classes))), "labels %s", yy[:12])
        got = [classes[v] for v in yy.tolist()]
        require(got == [ylab[i] for i in rows], "labels %s, should be %s", got[:12], [ylab[i] for i in rows][:12])
        p = np.array([ylab.count(c) for c in classes]) / n if n < 50000 else None
        if p is not None:
            K = len(classes)
            g = (1 - (p ** 2).sum()) / (1 - 1 / K) if K > 1 else None
            if g is not None:
                require(abs(ds.scaled_gini_ - g) < 1e-9, "scaled_gini_ %s, should be %s", ds.scaled_gini_, g)
    ctx.add("transitions")
    return A, B, yy


# ---------------------------------------------------------------- cases
CFGS = [[s, o, d, sp, False] for s in (True, False) for o in (True, False)
        for d in ((None, "first", "if_binary") if o else (None,)) for sp in ((False, True) if o else (False,))]
CFGS += [[s, False, None, False, True] for s in (True, False)]


def orders(cols, th):
    """positions of the label and permutations of the columns in the dataframe"""
    perms = list(itertools.permutations(cols)) if (th or len(cols) <= 3) else \
        [tuple(cols), tuple(cols[::-1]), tuple(cols[1:] + cols[:1])]
    for p in perms:
        for pos in ({0, len(cols)} if not th else set(range(len(cols) + 1))):
            yield list(p[:pos]) + ["y"] + list(p[pos:])


SETS = [(["id"], None), (["id"], []), ([], ["s"]), (None, ["s", "z"]), (["id", "k"], ["s"]), (["id", "f"], ["t", "z"]),
        (["i"], ["z"]), (["id"], ["u"]), (["id"], ["n"]), (["f", "i", "id"], None), (["k"], ["t", "u"]),
        (["id", "i"], ["s", "t", "z"])]

LOADERS = ["boston", "breastcancer", "cardio", "churn", "diabetes", "satimage", "spambase", "letter"]


def cases(tier):
    th = tier == "thorough"
    nrs = 6 if th else 2
    for name in LOADERS:
        yield ["raw", name]
        for cfg in CFGS:
            if cfg[3] and name != "churn":
                continue
            yield ["loader", name, cfg, 7]
    for labk in LABELS:
        for ts in (0.3, 0.5, 0.25, 3, 0.4):
            yield ["split", labk, ts, 40 if th else 12]
    for si, (cont, cat) in enumerate(SETS):
        for labk in LABELS:
            for ci, cfg in enumerate(CFGS):
                if not valid(cat, cfg):
                    continue
                for oi, order in enumerate(orders((cont or []) + (cat or []), th)):
                    for rs in range(nrs):
                        yield ["one", order, labk, cont, cat, cfg, 0.3 + 0.2 * ((oi + rs) % 2), rs, (oi + ci) % 3]
    # declared in another order than the dataframe has them: every permutation of both lists
    for cont, cat in ((["id", "f", "i"], ["s", "z"]), (["id", "i"], ["s", "t", "z"])):
        for pc in itertools.permutations(cont):
            for pk in itertools.permutations(cat):
                for cfg in CFGS:
                    yield ["one", cont[:1] + cat + ["y"] + cont[1:], "b0", list(pc), list(pk), cfg, 0.3, 1, 0]
    # histories: one object, several extractions with other options, each as if it were the first
    hs = [c for c in CFGS if not c[3]] if not th else CFGS
    for a, b in itertools.product(hs, repeat=2):
        yield ["seq", [a, b], "b0", [0, 0]]
        yield ["seq", [a, b], "m0", [0, 1]]
    if th:
        for a, b, c in itertools.product([c for c in CFGS if not c[3]], repeat=3):
            yield ["seq", [a, b, c], "m0", [0, 1, 0]]
    # from_dtype, load_from_csv and load_raw_dataset on small files
    for r in range(0, 4):
        for catsel in itertools.combinations(["id", "f", "s", "t"], r):
            for withlabel in (False, True):
                for dropc in (None, ["f"], ["f", "t"]):
                    for labk in ("b0", "m1", "r0"):
                        for pos in (0, 2, 4):
                            yield ["csv", list(catsel), withlabel, dropc, labk, pos]


def valid(cat, cfg):
    if cfg[4] and ("n" in (cat or [])):
        return False
    if cfg[2] == "first" and not cat:
        return False
    return True


def setup(tier):
    from wildwood.datasets.dataset import Dataset  # noqa: F401
    import logging
    logging.disable(logging.CRITICAL)


def seq_frame(labk):
    return frame(["id", "s", "y", "f", "z"], labk, 0), ["id", "f"], ["s", "z"]


def check(case, ctx):
    kind = case[0]
    if kind == "one":
        _, order, labk, cont, cat, cfg, ts, rs, index = case
        df = frame(order, labk, index)
        ds = make(df, TASK[labk[0]], cont, cat, cfg, test_size=ts)
        a = check_extract(ds, df, rs, ctx)
        if a is None:
            return
        ctx.state((order, labk, cont, cat, cfg, ts, rs))
        np.random.seed(12345)
        np.random.random(3)
        with impl("second extract"):
            b = ds.extract(random_state=rs)
        require(np.array_equal(a[0], dense(b[0]).astype(float), equal_nan=True)
                and np.array_equal(a[1], dense(b[1]).astype(float), equal_nan=True),
                "extracting twice with random_state=%d gives different data", rs)
        ctx.add("transitions")
    elif kind == "split":
        _, labk, ts, nrs = case
        seen = set()
        for rs in range(nrs):
            tr, te = ref_split(LABELS[labk], TASK[labk[0]], ts, rs)
            seen.add(tuple(sorted(te)))
            ctx.state((labk, ts, rs))
            ctx.add("transitions")
        require(len(seen) > 1, "the same test set %s for %d random states", seen, nrs)
    elif kind == "seq":
        _, cfgs, labk, rss = case
        df, cont, cat = seq_frame(labk)
        ds = make(df, TASK[labk[0]], cont, cat, cfgs[0])
        for cfg, rs in zip(cfgs, rss):
            ds.standardize, ds.one_hot_encode, ds.drop, ds.sparse, ds.pd_df_categories = cfg
            check_extract(ds, df, rs, ctx)
        ctx.state((cfgs, labk, rss))
    elif kind == "csv":
        check_csv(case, ctx)
    else:
        check_loader(case, ctx)


def check_csv(case, ctx):
    _, catsel, withlabel, dropc, labk, pos = case
    from wildwood.datasets.dataset import Dataset, load_raw_dataset
    order = ["id", "s", "f", "t"]
    order.insert(pos, "y")
    df = frame(order, labk, 0)
    task = TASK[labk[0]]
    scratch = tempfile.mkdtemp(dir=os.environ.get("WWMC_SCRATCH"))
    try:
        path = os.path.join(scratch, "d.csv.gz")
        df.to_csv(path, index=False)
        feats = [c for c in ["id", "s", "f", "t"] if c not in (dropc or [])]
        # "s" holds text: it has to be categorical
        dtype = {c: ("category" if (c in catsel or c == "s") else np.float64) for c in feats}
        if withlabel:
            dtype["y"] = np.float64 if labk == "r0" else "category" if labk == "b0" else np.int64
        with impl("from_dtype/load_from_csv"):
            ds = Dataset.from_dtype("d", task, "y", dtype, drop_columns=dropc).load_from_csv(path, dtype=dtype)
        require(list(ds.df_raw.columns) == [c for c in order if c not in (dropc or [])], "df_raw has columns %s",
                list(ds.df_raw.columns))
        require(len(ds.df_raw) == len(df), "df_raw has %d rows", len(ds.df_raw))
        for c in feats:
            g = ds.df_raw[c].tolist()
            e = df[c].tolist()
            require([str(a) for a in g] == [str(a) for a in e] if c == "s" else
                    np.allclose(np.array(g, dtype=float), np.array(e, dtype=float)), "column %r is %s", c, g)
        fresh = ds.df_raw
        for onehot in (True, False):
            ds.one_hot_encode = onehot
            wc = {c for c in feats if dtype[c] == "category"}
            require(set(ds.categorical_columns or []) == wc and set(ds.continuous_columns or []) == set(feats) - wc,
                    "from_dtype: categorical %s continuous %s", ds.categorical_columns, ds.continuous_columns)
            check_extract(ds, fresh, 3, ctx)
        with impl("load_raw_dataset"):
            X, y = load_raw_dataset(path, "y", dtype=dtype, drop_columns=dropc)
        require(list(X.columns) == [c for c in order if c in feats], "raw columns %s", list(X.columns))
        require([str(v) for v in y.tolist()] == [str(v) for v in fresh["y"].tolist()], "raw labels")
        require(X.equals(fresh.drop(columns="y")), "raw features differ")
        ctx.state(case)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_loader(case, ctx):
    import wildwood.datasets as D
    name = case[1]
    load = getattr(D, "load_" + name)
    with impl("load_" + name):
        ds = load()
    df = ds.df_raw
    feats = [c for c in df.columns if c != ds.label_column]
    declared = list(ds.continuous_columns or []) + list(ds.categorical_columns or [])
    require(sorted(map(str, feats)) == sorted(map(str, declared)), "declared %s, loaded %s", declared, feats)
    require(ds.label_column not in declared, "the label is declared as a feature")
    if case[0] == "raw":
        with impl("load_%s(raw=True)" % name):
            X, y = load(raw=True)
        require([str(c) for c in X.columns] == [str(c) for c in feats], "raw columns %s", list(X.columns))
        require(y.tolist() == df[ds.label_column].tolist(), "raw labels")
        for c in feats:
            require([str(a) for a in X[c].tolist()] == [str(a) for a in df[c].tolist()], "raw column %s", c)
        with impl("load again"):
            df2 = load().df_raw
        require(df2.equals(df), "loading twice differs")
        ctx.add("transitions", 2)
    else:
        _, _, cfg, rs = case
        ds.standardize, ds.one_hot_encode, ds.drop, ds.sparse, ds.pd_df_categories = cfg
        check_extract(ds, df, rs, ctx, deep=len(df) < 6000)
    ctx.state(case)
