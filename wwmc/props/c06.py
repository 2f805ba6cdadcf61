"""C06: categorical encoding is a bijection; missing and unknown values are set apart."""
import itertools
import math

import numpy as np
import pandas as pd

from wwmc import enc
from wwmc.common import require, impl, Violation

ASSUMPTIONS = ["for pandas category columns the known categories are those of the dtype at fit",
               "unused unknown pandas categories with handle_unknown='error' are left unspecified"]
NAN = float("nan")
MISS = "<missing>"
ALPH = {
    "s": ["a", "b", "cc", "zz", ""],
    "i": [1, 2, 10, 77, -3],
    "f": [0.5, 1.0, -2.25, 9.75, 100.0],
    "b": [False, True],
}
# fit container -> type of values
FITC = {"df_o": "s", "df_cat": "s", "df_catu": "s", "df_cato": "s", "df_str": "s", "nd_o": "s", "nd_U": "s",
        "df_i": "i", "nd_i": "i", "df_catI": "i", "df_i1": "i", "df_f": "f", "nd_f": "f", "nd_f4": "f",
        "df_b": "b", "nd_b": "b", "nd_oi": "i", "df_oi": "i"}
TRC = {"s": ["df_o", "df_cat", "df_catu", "df_catr", "df_str", "nd_o", "nd_U"],
       "i": ["df_i", "nd_i", "df_catI", "df_f", "nd_f", "df_oi", "df_i1"],
       "f": ["df_f", "nd_f", "nd_f4"],
       "b": ["df_b", "nd_b"]}


def setup(tier):
    enc.encoder()


def isna(v):
    return v is MISS or v == MISS if isinstance(v, str) else v is MISS


def build(name, vals, ty, idx=False):
    """One column in the container; None if the container cannot hold the values."""
    miss = [isna(v) for v in vals]
    index = [5 - (i % 2) for i in range(len(vals))] if idx else None
    if name in ("df_o", "df_oi"):
        return pd.DataFrame({"x": pd.Series([None if m else v for v, m in zip(vals, miss)], dtype=object, index=index)})
    if name == "df_str":
        return pd.DataFrame({"x": pd.Series([NAN if m else v for v, m in zip(vals, miss)], dtype=object, index=index)})
    if name in ("df_cat", "df_catI"):
        return pd.DataFrame({"x": pd.Series([None if m else v for v, m in zip(vals, miss)], index=index, dtype="category")})
    if name == "df_catu":  # unused categories, own order
        cats = list(reversed(ALPH[ty][:3]))
        if not set(v for v, m in zip(vals, miss) if not m) <= set(cats):
            return None
        return pd.DataFrame({"x": pd.Categorical([None if m else v for v, m in zip(vals, miss)], categories=cats)}, index=index)
    if name in ("df_cato", "df_catr"):  # categories in order of appearance (reversed)
        seen = []
        for v, m in zip(vals, miss):
            if not m and v not in seen:
                seen.append(v)
        seen.reverse()
        return pd.DataFrame({"x": pd.Categorical([None if m else v for v, m in zip(vals, miss)], categories=seen,
                                                 ordered=name == "df_cato")}, index=index)
    if name in ("nd_o", "nd_oi"):
        a = np.empty((len(vals), 1), dtype=object)
        for i, (v, m) in enumerate(zip(vals, miss)):
            a[i, 0] = (None if i % 2 else NAN) if m else v
        return a
    if name in ("df_f", "nd_f", "nd_f4"):
        if ty == "s":
            return None
        a = np.array([NAN if m else float(v) for v, m in zip(vals, miss)])
        if name == "df_f":
            return pd.DataFrame({"x": a}, index=index)
        return a.reshape(-1, 1).astype(np.float32 if name == "nd_f4" else np.float64)
    if any(miss):
        return None
    if name == "nd_U":
        return np.array([[v] for v in vals])
    if name in ("df_i", "nd_i", "df_i1"):
        dt = np.int8 if name == "df_i1" else np.int64
        a = np.array(vals, dtype=dt)
        return a.reshape(-1, 1) if name == "nd_i" else pd.DataFrame({"x": a}, index=index)
    if name == "df_b":
        return pd.DataFrame({"x": np.array(vals, dtype=bool)}, index=index)
    if name == "nd_b":
        return np.array(vals, dtype=bool).reshape(-1, 1)
    raise KeyError(name)


def known_of(name, X, vals):
    if name.startswith("df_cat"):
        return list(X["x"].cat.categories)
    out = []
    for v in vals:
        if not isna(v) and v not in out:
            out.append(v)
    return out


def cases(tier):
    th = tier == "thorough"
    for fc, ty in FITC.items():
        al = ALPH[ty][:3] + [MISS]
        for n in range(1, 5 if th else 4):
            for f in (itertools.product(range(len(al)), repeat=n) if n < 3 or th
                      else itertools.combinations_with_replacement(reversed(range(len(al))), n)):
                for hu in ("consider_missing", "error"):
                    yield ["one", fc, [al[i] for i in f], hu]
    # number of categories around the code widths used by pandas
    for K in [1, 2, 3, 7, 8, 63, 64, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000] + (
            [32766, 32767, 32768, 40000] if th else [32767, 32768]):
        for kind in ("s", "i"):
            for cont in ("df", "nd"):
                yield ["many", K, kind, cont]
    # several columns of different kinds, duplicated names, other positions
    kinds = ["s", "i", "num", "cat"]
    for t in itertools.product(kinds, repeat=3):
        for names in ("abc", "aab", "aaa", "012"):
            yield ["multi", list(t), names]
    # through the forest: unknown and missing values are treated alike, known categories keep their meaning
    for fc in ("df_o", "df_cat", "df_catu", "nd_o", "nd_U", "df_i", "nd_i", "df_catI"):
        for kind in ("clf", "reg"):
            for s in range(6 if th else 2):
                for m in (0, 1):
                    yield ["forest", fc, kind, s, m]


def check(case, ctx):
    return {"one": one, "many": many, "multi": multi, "forest": forest}[case[0]](case, ctx)


def transforms(ty, fc):
    """All transform columns of one and two values over known, unknown and missing values, and longer ones."""
    al = ALPH[ty] + [MISS]
    for a in al:
        yield [a]
    for a, b in itertools.product(al, repeat=2):
        yield [a, b]
    yield list(al)
    yield list(reversed(al))
    yield ALPH[ty][:3] * 2
    yield ALPH[ty][:3] + [MISS]


def one(case, ctx):
    _, fc, vals, hu = case
    ty = FITC[fc]
    X = build(fc, vals, ty)
    if X is None or all(isna(v) for v in vals):
        return
    known = known_of(fc, X, vals)
    K = len(known)
    e = enc.fit(enc.encoder(is_categorical=np.array([True]), handle_unknown=hu), X)
    mapping = {}

    def see(v, b, what):
        b = int(b)
        if isna(v) or v not in known:
            require(b == K, "%s: %r gets bin %d, missing and unknown values have bin %d", what, v, b, K)
            return
        require(0 <= b < K, "%s: category %r gets bin %d of %d", what, v, b, K)
        require(mapping.setdefault(v, b) == b, "%s: category %r gets bin %d, before %d", what, v, b, mapping[v])
        for w, c in mapping.items():
            require(w == v or c != b, "%s: categories %r and %r share bin %d", what, v, w, b)
    B, fb = enc.bins(e, X)
    for v, b in zip(vals, B[:, 0]):
        see(v, b, "fit data")
    with impl("inverse_transform"):
        D = e.inverse_transform(fb)
    for v, w in zip(vals, D.iloc[:, 0].tolist()):
        if isna(v):
            require(w is None or w != w, "inverse_transform of a missing value is %r", w)
        else:
            require(w == v, "inverse_transform of %r is %r", v, w)
    for t in transforms(ty, fc):
        unk = any(not isna(v) and v not in known for v in t)
        for k, tc in enumerate(TRC[ty]):
            Y = build(tc, t, ty, idx=len(t) == 2)
            if Y is None:
                continue
            dtype_unknown = tc.startswith("df_cat") and any(c not in known for c in Y["x"].cat.categories)
            if hu == "error" and (unk or dtype_unknown):
                if unk:
                    try:
                        enc.transform_raw(e, Y)
                    except ValueError:
                        pass
                    except Exception as ex:  # noqa: BLE001
                        raise Violation("unknown category in %s: %s instead of ValueError" % (tc, type(ex).__name__))
                    else:
                        raise Violation("an unknown category in %s (%r) is accepted" % (tc, t))
                continue
            B, fb = enc.bins(e, Y)
            for v, b in zip(t, B[:, 0]):
                see(v, b, tc)
            ctx.add("transitions", len(t))
            ctx.add("traces")
            if k == 0:
                with impl("inverse_transform"):
                    D = e.inverse_transform(fb)
                for v, w in zip(t, D.iloc[:, 0].tolist()):
                    if isna(v) or v not in known:
                        require(w is None or w != w, "inverse_transform of %r is %r", v, w)
                    else:
                        require(w == v, "inverse_transform of %r is %r", v, w)
    ctx.state((fc, K, hu, tuple(sorted(mapping.items(), key=str))))


def many(case, ctx):
    _, K, kind, cont = case
    vals = [("c%05d" % i if kind == "s" else i * 3) for i in range(K)]
    unk = "u" if kind == "s" else -1
    rows = vals + vals[: 3]
    X = np.array([[v] for v in rows], dtype=object if kind == "s" else np.int64)
    if cont == "df":
        X = pd.DataFrame({"x": X[:, 0].tolist()})
    e = enc.fit(enc.encoder(is_categorical=np.array([True]), handle_unknown="consider_missing"), X)
    B, fb = enc.bins(e, X)
    b = B[:, 0]
    require(sorted(b[:K].tolist()) == list(range(K)), "the %d categories are not mapped onto 0..%d", K, K - 1)
    require(b[K:].tolist() == b[:min(3, K)].tolist(), "repeated categories get other bins")
    with impl("inverse_transform"):
        D = e.inverse_transform(fb)
    require(D.iloc[:, 0].tolist() == rows, "inverse_transform does not give the categories back")
    step = max(1, K // 50)
    sel = sorted(set(list(range(0, K, step)) + [K - 1]))
    t = [unk] + [vals[i] for i in sel] + [unk]
    Y = np.array([[v] for v in t], dtype=object if kind == "s" else np.int64)
    if cont == "df":
        Y = pd.DataFrame({"x": Y[:, 0].tolist()})
    B2, _ = enc.bins(e, Y)
    require(B2[0, 0] == K and B2[-1, 0] == K, "an unknown category gets bin %d of %d", B2[0, 0], K)
    require(B2[1:-1, 0].tolist() == [int(b[i]) for i in sel], "the mapping changed between two transforms")
    ctx.state((K, kind, cont))
    ctx.add("transitions", len(rows) + len(t))
    ctx.add("traces", 2)


def multi(case, ctx):
    _, t, names = case
    n = 7
    cols, types = [], []
    for j, k in enumerate(t):
        if k == "s":
            cols.append(pd.Series([("p", "q", None)[(i + j) % (2 + j % 2)] for i in range(n)], dtype=object))
        elif k == "i":
            cols.append(pd.Series([(3, 1, 2)[(i * (j + 1)) % 3] for i in range(n)]))
        elif k == "num":
            cols.append(pd.Series([float((i * (j + 2)) % 5) for i in range(n)]))
        else:
            cols.append(pd.Series(pd.Categorical([("z", "y", "x")[(i + 2 * j) % 3] for i in range(n)],
                                                 categories=["z", "y", "w", "x"])))
        types.append(k != "num")
    X = pd.concat(cols, axis=1)
    X.columns = list(names) if names != "012" else [2, 0, 1]
    e = enc.fit(enc.encoder(is_categorical=np.array(types), handle_unknown="consider_missing"), X)
    B, _ = enc.bins(e, X)
    for j in range(3):
        Xj = pd.DataFrame({"x": cols[j]})
        ej = enc.fit(enc.encoder(is_categorical=np.array([types[j]]), handle_unknown="consider_missing"), Xj)
        Bj, _ = enc.bins(ej, Xj)
        require(B[:, j].tolist() == Bj[:, 0].tolist(), "column %d of %s is encoded as %s, alone as %s",
                j, t, B[:, j].tolist(), Bj[:, 0].tolist())
    # rows in another order
    p = [3, 0, 6, 2]
    B2, _ = enc.bins(e, X.iloc[p])
    require(np.array_equal(B2, B[p]), "rows taken in another order are encoded differently")
    ctx.state((tuple(t), names, B.tobytes()))
    ctx.add("traces", 2)
    ctx.add("transitions", 3 * n)


def forest(case, ctx):
    _, fc, kind, s, m = case
    from wildwood import ForestClassifier, ForestRegressor
    ty = FITC[fc]
    al = ALPH[ty][:3]
    vals = [al[(i * i + s) % 3] for i in range(14)]
    if m:
        vals[5] = MISS
    if m and build(fc, vals, ty) is None:
        return
    X = build(fc, vals, ty)
    y = [1 if v == al[0] else 0 if v == al[1] else i % 2 for i, v in enumerate(vals)]
    cls = ForestClassifier if kind == "clf" else ForestRegressor
    with impl("fit"):
        f = cls(n_estimators=4, random_state=s, handle_unknown="consider_missing", aggregation=False,
                categorical_features=[True])
        f.fit(X, np.array(y))

    def pred(v, tc):
        Y = build(tc, v, ty)
        if Y is None:
            return None
        with impl("predict"):
            return np.asarray(f.predict_proba(Y) if kind == "clf" else f.predict(Y).reshape(-1, 1))
    full = None
    unk = ALPH[ty][3]
    for tc in TRC[ty]:
        P = pred(al, tc)
        if P is None:
            continue
        if full is None:
            full = P
        require(np.array_equal(full, P), "categories given as %s are predicted differently", tc)
        for i, v in enumerate(al):
            A = pred([v], tc)
            require(np.array_equal(A[0], full[i]), "category %r alone (%s) is predicted differently", v, tc)
            A = pred([unk, v], tc)
            if A is not None:
                require(np.array_equal(A[1], full[i]), "category %r next to an unknown one is predicted differently", v)
        U, Mi = pred([unk], tc), pred([MISS], tc)
        if U is not None and Mi is not None:
            require(np.array_equal(U, Mi), "unknown and missing values are predicted differently")
        ctx.add("traces")
    ctx.state((fc, kind, s, m))
    ctx.add("transitions", 9)
