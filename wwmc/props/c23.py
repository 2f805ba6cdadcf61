"""C23: predictions are made row by row."""
import itertools

import numpy as np
import pandas as pd

from wwmc import forestcheck
from wwmc.common import impl, require

ASSUMPTIONS = [
    "rows are drawn from an alphabet of %d rows with seen, unseen, missing and unknown values in every column" % 9,
]
NAN = float("nan")
MODELS = {
    "clf": dict(kind="clf"),
    "clf3": dict(kind="clf", k=3, criterion="entropy", cat_split_strategy="all"),
    "ovr": dict(kind="clf", k=3, multiclass="ovr"),
    "noagg": dict(kind="clf", aggregation=False, cat_split_strategy="random"),
    "reg": dict(kind="reg"),
    "regn": dict(kind="reg", aggregation=False),
}
# training rows and query rows: float, integer, category
TRAIN = [(0.0, 3, "a"), (1.5, 1, "b"), (NAN, 2, "c"), (2.0, 3, "a"), (0.5, 1, "c"), (3.0, 2, None), (1.0, 0, "b"), (2.5, 0, "d"),
         (NAN, 1, "d"), (0.0, 2, "b"), (1.5, 3, "d"), (3.0, 0, "c")]
ROWS = [(0.0, 3, "a"), (NAN, 2, "c"), (2.0, 1, None), (1.25, 0, "zz"), (-7.0, 99, "b"), (1e30, -4, "d"), (0.5, 2, "aa"), (2.5, 3, "c"), (1.5, None, "a")]
LAB = [0, 1, 2, 0, 1, 1, 0, 2, 1, 0, 2, 0]
BOX = {"frame": ["cat-fit", "cat-present", "cat-reversed", "object", "index"],
       "numbers": ["c", "f", "f32", "strided", "frame"], "strings": ["object", "object-f"]}
CACHE = {}


def setup(tier):
    pass


def cases(tier):
    th = tier == "thorough"
    for model in MODELS:
        for data in BOX:
            for box in BOX[data]:
                for k in range(1, 5 if th else 4):
                    # the first rows of the batch; the case goes through all the continuations
                    for head in itertools.product(range(len(ROWS)), repeat=k - 1):
                        yield ["seq", model, data, box, list(head)]
            for size in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) + ((1023, 1024, 1025, 4097) if th else ()):
                for a in range(9):
                    for b in ((0, 1, 3, 5) if th else (0, 3)):
                        yield ["long", model, data, size, a, b]


def numeric(r):
    """the row as numbers: the category becomes its rank, an unknown one a number never seen"""
    return [r[0], NAN if r[1] is None else float(r[1]), NAN if r[2] is None else {"a": 1.0, "b": 2.0, "c": 3.0, "d": 4.0}.get(r[2], 9.0)]


def build(data, box, rows):
    if data == "numbers":
        A = np.array([numeric(r) for r in rows], dtype=float)
        if box == "f":
            return np.asfortranarray(A)
        if box == "f32":
            return A.astype(np.float32)
        if box == "strided":
            B = np.full((2 * len(rows), 7), -3.0)
            B[::2, 1::2] = A
            return B[::2, 1::2]
        if box == "frame":
            return pd.DataFrame(A)
        return A
    if data == "strings":
        A = np.empty((len(rows), 2), dtype=object)
        for i, r in enumerate(rows):
            A[i, 0] = r[2]
            A[i, 1] = None if r[1] is None else "xyzw"[abs(r[1]) % 4]
        return np.asfortranarray(A) if box == "object-f" else A
    cats = [r[2] for r in rows]
    if box == "cat-fit":
        known = ["a", "b", "c", "d"] + sorted({c for c in cats if c is not None} - set("abcd"))
        col = pd.Categorical(cats, categories=known)
    elif box == "cat-present":
        col = pd.Categorical(cats)
    elif box == "cat-reversed":
        col = pd.Categorical(cats, categories=["zz", "q", "d", "c", "b", "aa", "a"], ordered=True)
    else:
        col = np.array(cats, dtype=object)
    ints = [NAN if r[1] is None else r[1] for r in rows]
    ints = np.array(ints, dtype=float if any(v != v for v in ints) else np.int64)
    df = pd.DataFrame({"x": np.array([r[0] for r in rows], dtype=float), "i": ints, "c": col})
    if box == "index":
        df["c"] = pd.Categorical(cats)
        df.index = [(7 * i) % 3 for i in range(len(rows))]
    return df


def model(name, data):
    if (name, data) not in CACHE:
        kw = dict(MODELS[name])
        kind, k = kw.pop("kind"), kw.pop("k", 2)
        if data == "numbers":
            kw["categorical_features"] = [False, False, True]
        y = np.array([min(v, k - 1) for v in LAB]) if kind == "clf" else np.array([v * 1.5 - i * 0.25 for i, v in enumerate(LAB)])
        f = forestcheck.fit_forest(kind, build(data, BOX[data][0], TRAIN), y, None, n_estimators=3, random_state=4,
                                   handle_unknown="consider_missing", max_features=None, **kw)
        alone = [observe(f, kind, build(data, BOX[data][0], [r])) for r in ROWS]
        for i, a in enumerate(alone):
            for m in a:
                require(a[m].shape[0] == 1, "%s of one row has shape %s", m, a[m].shape)
        CACHE[name, data] = f, kind, alone
    return CACHE[name, data]


def observe(f, kind, X):
    """method -> array whose first axis are the rows of X"""
    with impl("predictions"):
        out = dict(predict=np.asarray(f.predict(X)), apply=np.asarray(f.apply(X)))
        if kind == "clf":
            out["predict_proba"] = np.asarray(f.predict_proba(X))
            out["predict_proba_trees"] = np.asarray(f.predict_proba_trees(X))
        else:
            out["predict_trees"] = np.asarray(f.predict_trees(X))
    n = len(X)
    for m in out:
        if m not in ("predict", "predict_proba"):
            require(out[m].ndim >= 2 and n in out[m].shape[:2], "%s has shape %s for %d rows", m, out[m].shape, n)
            out[m] = np.moveaxis(out[m], 1, 0)
        require(out[m].shape[0] == n, "%s has shape %s for %d rows", m, out[m].shape, n)
    return out


def compare(f, kind, alone, idx, X, what):
    got = observe(f, kind, X)
    for m in got:
        for pos, i in enumerate(idx):
            a = alone[i][m][0]
            b = got[m][pos]
            require(np.array_equal(a, b), "%s: %s of row %s at position %d of %s is %s, alone it is %s", what, m, ROWS[i], pos, idx[:40],
                    np.asarray(b).tolist(), np.asarray(a).tolist())


def check(case, ctx):
    f, kind, alone = model(case[1], case[2])
    if case[0] == "long":
        _, _, data, size, a, b = case
        idx = [(a + i + (i * i // 7) * b) % len(ROWS) for i in range(size)]
        compare(f, kind, alone, idx, build(data, BOX[data][a % len(BOX[data])], [ROWS[i] for i in idx]), "batch of %d rows" % size)
        ctx.add("traces")
        ctx.add("transitions", size)
        return
    _, _, data, box, head = case
    for last in range(len(ROWS)):
        idx = head + [last]
        compare(f, kind, alone, idx, build(data, box, [ROWS[i] for i in idx]), "rows in a " + box)
        ctx.add("traces")
        ctx.add("transitions", len(idx))
        ctx.state((case[1], data, idx))
    ctx.outcome(str([alone[i]["predict"].tolist() for i in head + [0]]).encode())
