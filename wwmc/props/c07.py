"""C07: columns are typed as declared, and as documented when undeclared."""
import itertools
import math

import numpy as np
import pandas as pd

from wwmc import enc
from wwmc.common import require, impl, Violation

ASSUMPTIONS = ["undeclared columns with missing values are left out (ndarrays count them as a value, dataframes do not)",
               "an empty list of categorical features is left out (the code takes it as nothing declared)"]
NUM = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i2": np.int16, "u1": np.uint8, "u8": np.uint64}
CMC = ["log", "sqrt", 4, 5, 10]


def setup(tier):
    enc.encoder()


def limit(cmc, n):
    if cmc == "log":
        return max(2, math.floor(math.log(n)))
    if cmc == "sqrt":
        return max(2, math.floor(math.sqrt(n)))
    return cmc


def cases(tier):
    th = tier == "thorough"
    ns = [2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 19, 20, 21, 24, 25, 26, 54, 55, 100, 148, 149] + ([403, 404, 1097, 1100] if th else [])
    for n in ns:
        for cmc in CMC:
            L = limit(cmc, n)
            for k in sorted(set([1, 2, 3, L - 1, L, L + 1, L + 2, n])):
                if not 1 <= k <= n:
                    continue
                for cont in ("nd", "df", "ndo", "nds", "dfo", "dfcat", "dfb"):
                    if cont == "dfb" and k > 2:
                        continue
                    yield ["auto", n, cmc, k, cont]
    # larger tables: only around the limit
    for n in (403, 404, 1096, 1097, 2980, 2981, 8103, 8104) + ((65536, 70000) if th else (65536,)):
        for cmc in ("log", "sqrt", 10, 300):
            L = limit(cmc, n)
            for k in (L - 1, L, L + 1):
                for cont in ("nd", "df"):
                    yield ["auto", n, cmc, k, cont]
    # many columns, one or two of them categorical
    for cont in ("nd", "df", "dfcat"):
        for F in (9, 65, 129, 260):
            for on in ([0], [F - 1], [F // 2, F - 2], [1, 0], list(range(0, F, 2))):
                for form in ("mask", "masknp", "idx", "idxnp"):
                    for where in ("ctor", "fit", "set") if form == "idx" else ("ctor",):
                        yield ["decl", cont, [j in on for j in range(F)], form, where]
    for cont in ("nd", "df", "dfo", "dfcat", "ndo"):
        for F in range(1, 5):
            for mask in itertools.product((False, True), repeat=F):
                for form in ("mask", "masknp", "idx", "idxnp", "idxdup", "tuple"):
                    for where in ("enc", "ctor", "fit", "set"):
                        yield ["decl", cont, list(mask), form, where]
    for F in range(1, 4):
        for bad in ("long", "short", "neg", "big", "float", "str", "2d"):
            for where in ("ctor", "fit", "set"):
                yield ["bad", F, bad, where]
    for dt in ("M8[ns]", "m8[ns]", "c16"):
        for cont in ("nd", "df"):
            for where in ("enc", "forest"):
                yield ["dtype", dt, cont, where]
    for v in ("abc", "1.5x"):
        for where in ("enc", "forest"):
            yield ["nonnum", v, where]
    for cmc in CMC:
        for n in (9, 16, 21, 26):
            for kind in ("clf", "reg"):
                yield ["fauto", n, cmc, kind]


def column(n, k, cont):
    """n values, k of them distinct."""
    v = [i % k for i in range(n)]
    if cont == "nd":
        return {d: np.array(v, dtype=t).reshape(-1, 1) for d, t in NUM.items() if k <= 250}
    if cont == "df":
        return {d: pd.DataFrame({"x": np.array(v, dtype=t)}) for d, t in NUM.items() if k <= 250}
    if cont == "ndo":
        return {"o": np.array([[float(x)] for x in v], dtype=object), "ot": np.array([["t%d" % x] for x in v], dtype=object)}
    if cont == "nds":
        return {"U": np.array([["%d.5" % x] for x in v]), "Ut": np.array([["t%d" % x] for x in v])}
    if cont == "dfo":
        return {"o": pd.DataFrame({"x": pd.Series([float(x) for x in v], dtype=object)}),
                "ot": pd.DataFrame({"x": ["t%d" % x for x in v]})}
    if cont == "dfcat":
        return {"c": pd.DataFrame({"x": pd.Series(v, dtype="category")}),
                "ct": pd.DataFrame({"x": pd.Series(["t%d" % x for x in v], dtype="category")})}
    return {"b": pd.DataFrame({"x": [bool(x) for x in v]})}


def expected_auto(cont, d, k, L):
    if cont in ("dfo", "dfcat", "dfb"):
        return True
    if k <= L:
        return True
    return d in ("ot", "Ut")


def treated(e, X, want, k, ctx):
    """The encoding itself is that of the type: thresholds or categories."""
    B, _ = enc.bins(e, X)
    require(B.max() < max(k, 1) and len(set(B[:, 0].tolist())) == k,
            "%d distinct values are encoded as %d bins", k, len(set(B[:, 0].tolist())))
    cats, thr = getattr(e, "categories_", None), getattr(e, "binning_thresholds_", None)
    if cats is not None and thr is not None:
        require((0 in cats) == want and (0 in thr) == (not want), "the column is typed %s but encoded otherwise", want)


def auto(case, ctx):
    _, n, cmc, k, cont = case
    L = limit(cmc, n)
    for d, X in column(n, k, cont).items():
        e = enc.fit(enc.encoder(cat_min_categories=cmc), X)
        want = expected_auto(cont, d, k, L)
        got = [bool(v) for v in e.is_categorical_]
        require(got == [want], "%s %s column with %d distinct values of %d rows, cat_min_categories=%r: categorical=%s",
                cont, d, k, n, cmc, got)
        if k <= 200:
            treated(e, X, want, k, ctx)
        for dec in (True, False):
            if not dec and d in ("ot", "Ut") and cont in ("ndo", "nds"):
                continue
            e = enc.fit(enc.encoder(cat_min_categories=cmc, is_categorical=np.array([dec])), X)
            want = dec or cont in ("dfo", "dfcat", "dfb")
            require([bool(v) for v in e.is_categorical_] == [want], "%s %s column declared %s is typed %s",
                    cont, d, dec, e.is_categorical_)
            if k <= 200:
                treated(e, X, want, k, ctx)
            ctx.add("traces")
        ctx.add("traces")
        ctx.add("transitions", 3)
    ctx.state((n, cmc, k, cont))


def decl_matrix(cont, F, n=9):
    cols = [[float((i * (j + 1) + i // 3) % (5 + j)) for i in range(n)] for j in range(F)]
    if cont == "nd":
        return np.array(cols).T
    if cont == "ndo":
        return np.array(cols).T.astype(object)
    if cont == "df":
        return pd.DataFrame({"c%d" % j: c for j, c in enumerate(cols)})
    if cont == "dfo":
        return pd.DataFrame({"c%d" % j: pd.Series(c, dtype=object) if j % 2 else c for j, c in enumerate(cols)})
    return pd.DataFrame({"c%d" % j: pd.Series(c, dtype="category") if j % 2 else c for j, c in enumerate(cols)})


def form_of(mask, form):
    idx = [j for j, m in enumerate(mask) if m]
    if form == "mask":
        return list(mask)
    if form == "masknp":
        return np.array(mask)
    if form == "tuple":
        return tuple(mask)
    if not idx:
        return None
    if form == "idx":
        return list(reversed(idx))
    if form == "idxnp":
        return np.array(idx)
    return idx + idx[:1]


def make(kind, where, val):
    from wildwood import ForestClassifier, ForestRegressor
    cls = ForestClassifier if kind == "clf" else ForestRegressor
    kw = dict(n_estimators=2, random_state=1, max_features=None, aggregation=False)
    if where == "ctor":
        kw["categorical_features"] = val
    f = cls(**kw)
    if where == "set":
        f.set_params(categorical_features=val)
    return f


def decl(case, ctx):
    _, cont, mask, form, where = case
    F = len(mask)
    val = form_of(mask, form)
    if val is None:
        return
    X = decl_matrix(cont, F)
    want = [m or (cont in ("dfo", "dfcat") and j % 2 == 1) for j, m in enumerate(mask)]
    if where == "enc":
        if form.startswith("idx"):
            return
        e = enc.fit(enc.encoder(is_categorical=val), X)
        require([bool(v) for v in e.is_categorical_] == want, "declared %s, typed %s", mask, e.is_categorical_)
    else:
        y = np.array([i % 2 for i in range(9)])
        for kind in ("clf", "reg"):
            with impl("fit"):
                f = make(kind, where, val)
                if where == "fit":
                    f.fit(X, y, categorical_features=val)
                else:
                    f.fit(X, y)
            got = [bool(v) for v in f.is_categorical_]
            require(got == want, "declared %s as %r in %s, typed %s", mask, val, where, got)
            for t in range(2):
                with impl("get_nodes"):
                    nodes = f.get_nodes(t)
                for leaf, ft, sc in zip(nodes["is_leaf"], nodes["feature"], nodes["is_split_categorical"]):
                    if not leaf:
                        require(bool(sc) == want[int(ft)], "a split on feature %d is %scategorical", ft, "" if sc else "not ")
                        ctx.add("transitions")
            with impl("predict"):
                f.predict(X)
    ctx.state((cont, tuple(mask), where))
    ctx.add("traces")


def refused(what, fn):
    try:
        fn()
    except ValueError:
        return
    except Exception as ex:  # noqa: BLE001
        raise Violation("%s: %s (%s) instead of ValueError" % (what, type(ex).__name__, str(ex)[:100]))
    raise Violation("%s is accepted" % what)


def bad(case, ctx):
    _, F, how, where = case
    val = {"long": [True] * (F + 1), "short": [False] * (F - 1) or None, "neg": [-1], "big": [F], "float": [0.0],
           "str": ["c0"], "2d": [[True] * F] * 2 if F != 2 else [[True] * F] * 3}[how]
    if val is None:
        return
    y = np.array([i % 2 for i in range(9)])
    for kind in ("clf", "reg"):
        for cont in ("nd", "df"):
            X = decl_matrix(cont, F)

            def go():
                f = make(kind, where, val)
                if where == "fit":
                    f.fit(X, y, categorical_features=val)
                else:
                    f.fit(X, y)
            refused("categorical_features=%r for %d features" % (val, F), go)
            ctx.add("traces")
    if how in ("long", "short") and where == "ctor":
        refused("is_categorical=%r for %d features" % (val, F),
                lambda: enc.encoder(is_categorical=np.array(val)).fit(decl_matrix("nd", F)))
    ctx.state(tuple(map(str, case)))
    ctx.add("transitions")


def dtype(case, ctx):
    _, dt, cont, where = case
    a = np.arange(12).astype(dt).reshape(6, 2)
    X = a if cont == "nd" else pd.DataFrame(a, columns=["u", "v"])
    for dec in (None, [False, False]):
        def go():
            if where == "enc":
                enc.encoder(is_categorical=dec).fit(X)
            else:
                make("clf", "ctor", dec).fit(X, np.array([0, 1] * 3))
        refused("a %s %s" % (cont, dt), go)
        ctx.add("traces")
    ctx.state(tuple(map(str, case)))


def nonnum(case, ctx):
    _, v, where = case
    for X in (np.array([[v + str(i)] for i in range(8)]), np.array([[v + str(i)] for i in range(8)], dtype=object)):
        def go():
            if where == "enc":
                enc.encoder(is_categorical=np.array([False])).fit(X)
            else:
                make("reg", "ctor", [False]).fit(X, np.arange(8.0))
        refused("text declared numerical", go)
        ctx.add("traces")
    ctx.state(tuple(case))


def fauto(case, ctx):
    _, n, cmc, kind = case
    from wildwood import ForestClassifier, ForestRegressor
    L = limit(cmc, n)
    ks = [k for k in (1, 2, L, L + 1, L + 2, n) if 1 <= k <= n]
    for cont in ("nd", "df"):
        X = np.array([[float(i % k) for k in ks] for i in range(n)])
        if cont == "df":
            X = pd.DataFrame(X, columns=["c%d" % j for j in range(len(ks))])
        with impl("fit"):
            f = (ForestClassifier if kind == "clf" else ForestRegressor)(
                n_estimators=1, random_state=0, cat_min_categories=cmc)
            f.fit(X, np.arange(n) % 2)
        got = [bool(v) for v in f.is_categorical_]
        require(got == [k <= L for k in ks], "columns with %s distinct values (n=%d, %r): categorical=%s", ks, n, cmc, got)
        ctx.add("traces")
        ctx.add("transitions", len(ks))
    ctx.state(tuple(map(str, case)))


def check(case, ctx):
    return globals()[case[0]](case, ctx)
