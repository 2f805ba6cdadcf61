"""C12: each tree splits the data into a bootstrap sample and its complement.

The multiplicities are read from the outside: sample i gets the weight (n+1)**i, so that the in-bag weight of
the root, written in base n+1, spells the multiplicity of every sample (and the out-of-bag weight the complement)."""
import itertools
import math

import numpy as np

from wwmc import seam
from wwmc.common import SeamError, require, impl, Violation

ASSUMPTIONS = ["the multiplicities are decoded from the weights recorded at the root of each tree"]


def setup(tier):
    from wildwood import ForestClassifier, ForestRegressor  # noqa: F401


def cases(tier):
    th = tier == "thorough"
    for n in range(2, 8):
        for mode in ("clf", "reg", "ovr", "bal"):
            for s in range(60 if th else 25):
                yield ["dec", mode, n, s]
    for n in (2, 3, 4):
        for mode in ("clf", "reg"):
            yield ["all", mode, n, 4000 if n == 4 else 1500]
    for n in list(range(2, 130 if th else 70)) + [200, 500, 1000, 4097, 32769, 65537]:
        for mode in ("clf", "reg"):
            yield ["big", mode, n, n % 7]
    for n in range(2, 7):
        for mode in ("clf", "reg"):
            for s in range(10):
                yield ["same", mode, n, s]
    for n in (0, 1):
        for mode in ("clf", "reg", "ovr"):
            yield ["few", mode, n]
    for n in range(1, 7 if th else 6):
        yield ["fn", n, (120000 if th else 30000) if n == 5 else 8000 if n < 5 else 60000]


def forest(mode, n_estimators, s, **kw):
    from wildwood import ForestClassifier, ForestRegressor
    if mode == "reg":
        return ForestRegressor(n_estimators=n_estimators, random_state=s, **kw)
    return ForestClassifier(n_estimators=n_estimators, random_state=s,
                            multiclass="ovr" if mode == "ovr" else "multinomial", **kw)


def data(mode, n, var=0):
    X = np.array([[float((i * (3 + var)) % n), float(i % 2)] for i in range(n)])
    y = np.array([(i + var) % 2 for i in range(n)])
    if mode == "ovr" and n >= 3:
        y = np.array([i % 3 for i in range(n)])
    return X, y


def roots(f):
    out = []
    for t in range(len(f.trees)):
        with impl("get_nodes"):
            nodes = f.get_nodes(t)
        try:
            r = nodes.iloc[0]
            out.append((int(r["n_samples_train"]), int(r["n_samples_valid"]), float(r["w_samples_train"]),
                        float(r["w_samples_valid"])))
        except KeyError as e:
            raise SeamError("get_nodes: %s" % e)
    return out


def digits(w, base, n):
    w = int(round(w))
    out = []
    for _ in range(n):
        out.append(w % base)
        w //= base
    require(w == 0, "the weight recorded at the root is not a sum of sample weights")
    return out


def decode(f, n, base):
    pats = []
    for k, (nt, nv, wt, wv) in enumerate(roots(f)):
        c, d = digits(wt, base, n), digits(wv, base, n)
        require(sum(c) == n, "tree %d: the multiplicities %s do not sum to %d", k, c, n)
        require(all((a == 0) == (b == 1) and b <= 1 for a, b in zip(c, d)),
                "tree %d: in-bag multiplicities %s, out-of-bag weights %s", k, c, d)
        require(nt == sum(1 for a in c if a) and nv == n - nt and nv >= 1 and nt >= 1,
                "tree %d: %d in-bag and %d out-of-bag samples of %d", k, nt, nv, n)
        try:
            tr, va = seam.tree_bags(f.trees[k])
            require(sorted(tr) == [i for i, a in enumerate(c) if a] and sorted(va) == [i for i, a in enumerate(c) if not a],
                    "tree %d: in-bag %s and out-of-bag %s with multiplicities %s", k, tr, va, c)
        except SeamError:
            pass
        pats.append(tuple(c))
    return pats


def weights(n, base):
    w = np.array([float(base ** i) for i in range(n)])
    if n * base ** (n - 1) * 1.5 > 2 ** 24:
        raise SeamError("weights too large")
    return w


def dec(case, ctx):
    _, mode, n, s = case
    base = n + 1
    X, y = data(mode, n)
    w = weights(n, base)
    if mode == "bal":
        # balanced class weights: the two classes are equally frequent up to one sample: undo the factor
        k = np.bincount(y, minlength=2)
        if (k == 0).any():
            return
        cw = n / (2.0 * k)
        if n % 2:
            return
        require(np.allclose(cw, 1.0), "harness")
    with impl("fit"):
        f = forest("clf" if mode == "bal" else mode, 12, s, aggregation=True,
                   **(dict(class_weight="balanced") if mode == "bal" else {}))
        f.fit(X, y, sample_weight=w)
    for p in decode(f, n, base):
        ctx.state((n, p))
        ctx.add("transitions")
    ctx.add("traces", len(f.trees))
    # without weights every draw weighs one
    with impl("fit"):
        f2 = forest("clf" if mode == "bal" else mode, 12, s)
        f2.fit(X, y)
    for k, (nt, nv, wt, wv) in enumerate(roots(f2)):
        require(wt == n and nt + nv == n and wv == nv and nv >= 1, "tree %d: root weights %s, %s of %d samples", k, wt, wv, n)


def patterns(n):
    out = []
    for c in itertools.product(range(n + 1), repeat=n):
        if sum(c) == n and 0 in c:
            out.append(c)
    return out


def prob(c, n):
    p = math.factorial(n)
    for k in c:
        p //= math.factorial(k)
    return p / n ** n


def frequencies(count, n, total, what):
    pats = patterns(n)
    require(set(count) <= set(pats), "%s: impossible pattern", what)
    z = sum(prob(c, n) for c in pats)
    for c in pats:
        p = prob(c, n) / z
        require(count.get(c, 0) > 0, "%s: the multiplicities %s never occur", what, c)
        sd = math.sqrt(total * p * (1 - p))
        require(abs(count[c] - total * p) <= 8 * sd + 2, "%s: multiplicities %s occur %d times of %d, expected %.1f",
                what, c, count[c], total, total * p)


def all_(case, ctx):
    _, mode, n, T = case
    X, y = data(mode, n)
    base = n + 1
    count = {}
    per = 500
    for s in range(T // per):
        with impl("fit"):
            f = forest(mode, per, 100 + s)
            f.fit(X, y, sample_weight=weights(n, base))
        for p in decode(f, n, base):
            count[p] = count.get(p, 0) + 1
            ctx.state((n, p))
    ctx.add("traces", T)
    ctx.add("transitions", T)
    # the retry after an empty complement uses the next seed: frequencies stay multinomial conditioned on a complement
    frequencies(count, n, (T // per) * per, "%d samples" % n)


def big(case, ctx):
    _, mode, n, s = case
    X, y = data(mode, n)
    w = np.array([1.0 + (i % 4) for i in range(n)])
    with impl("fit"):
        f = forest(mode, 5, s)
        f.fit(X, y, sample_weight=w)
    bags = []
    for k, (nt, nv, wt, wv) in enumerate(roots(f)):
        require(nt + nv == n and nt >= 1 and nv >= 1, "tree %d: %d + %d samples of %d", k, nt, nv, n)
        try:
            tr, va = seam.tree_bags(f.trees[k])
        except SeamError:
            continue
        require(sorted(tr + va) == list(range(n)), "tree %d: the samples are not partitioned", k)
        bags.append(tuple(tr))
        require(abs(wv - sum(w[i] for i in va)) <= 1e-3 * max(1, wv), "tree %d: out-of-bag weight %s", k, wv)
        require(wt >= sum(w[i] for i in tr) - 1e-2, "tree %d: in-bag weight %s", k, wt)
    if n >= 20:
        require(len(set(bags)) == len(bags), "two trees have the same in-bag samples")
    with impl("fit"):
        f = forest(mode, 5, s)
        f.fit(X, y)
    for k, (nt, nv, wt, wv) in enumerate(roots(f)):
        require(abs(wt - n) <= 1e-3 * n and abs(wv - nv) <= 1e-3 * n, "tree %d: root weights %s and %s of %d samples", k, wt, wv, n)
    ctx.state((n, mode))
    ctx.add("traces", 10)
    ctx.add("transitions", 10)


def same(case, ctx):
    """The draw depends on the seed only: not on X, y, weights, growth limits or n_jobs."""
    _, mode, n, s = case
    base = n + 1
    ref = None
    for var in range(3):
        for kw in (dict(), dict(max_depth=2), dict(min_samples_leaf=2, aggregation=True), dict(n_jobs=2), dict(max_features=1)):
            X, y = data(mode, n, var)
            with impl("fit"):
                f = forest(mode, 4, s, **kw)
                f.fit(X, y, sample_weight=weights(n, base))
            p = decode(f, n, base)
            if ref is None:
                ref = p
            require(p == ref, "the same seed gives other bootstrap samples (%s)", kw)
            ctx.add("traces")
    ctx.state((n, tuple(ref)))
    ctx.add("transitions", len(ref))


def few(case, ctx):
    _, mode, n = case
    X, y = np.zeros((n, 2)), np.zeros(n)
    try:
        forest(mode, 2, 0).fit(X, y)
    except ValueError:
        ctx.state((mode, n))
        ctx.add("traces")
        return
    except Exception as e:  # noqa: BLE001
        raise Violation("fit on %d samples: %s instead of ValueError" % (n, type(e).__name__))
    raise Violation("fit on %d samples is accepted" % n)


def fn(case, ctx):
    """The drawing function itself over a range of seeds, when it is there under its name."""
    _, n, S = case
    try:
        from wildwood.forest import _generate_train_valid_samples as g
    except ImportError as e:
        raise SeamError(str(e))
    if n == 1:
        try:
            g(3, 1)
        except ValueError:
            return
        except TypeError as e:
            raise SeamError(str(e))
        except Exception as e:  # noqa: BLE001
            raise Violation("one sample: %s instead of ValueError" % type(e).__name__)
        raise Violation("a bootstrap of one sample is accepted")
    count = {}
    top = [2 ** 32 - 2, 2 ** 32 - 3, 2 ** 32 - 1 - 1, 2 ** 31, 2 ** 31 - 1]
    for s in itertools.chain(range(S), top * 2):
        try:
            r = g(s, n)
        except TypeError as e:
            raise SeamError(str(e))
        except Exception as e:  # noqa: BLE001
            raise Violation("seed %d, %d samples: %s: %s" % (s, n, type(e).__name__, e))
        if not isinstance(r, tuple) or len(r) != 3:
            raise SeamError("the drawing function returns something else")
        tr, va, c = r
        tr, va, c = [int(v) for v in tr], [int(v) for v in va], [int(v) for v in c]
        require(sorted(tr + va) == list(range(n)) and tr and va, "seed %d: in-bag %s, out-of-bag %s", s, tr, va)
        require(len(c) == len(tr) and min(c) >= 1 and sum(c) == n, "seed %d: multiplicities %s", s, c)
        p = [0] * n
        for i, k in zip(tr, c):
            p[i] = k
        p = tuple(p)
        if s < S:
            count[p] = count.get(p, 0) + 1
    for p in count:
        ctx.state((n, p))
    ctx.add("transitions", S)
    ctx.add("traces", S)
    if n <= 5:
        frequencies(count, n, S, "%d samples" % n)


def check(case, ctx):
    return dict(dec=dec, all=all_, big=big, same=same, few=few, fn=fn)[case[0]](case, ctx)
