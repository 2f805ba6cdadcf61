"""C08: the packed features matrix stores and returns every bin exactly."""
import itertools

import numpy as np

from wwmc.common import SeamError, require, impl

ASSUMPTIONS = ["maximum values below 2**48 (the code computes widths through floating point logarithms)"]
DT = [np.uint8, np.uint16, np.uint32, np.uint64]
A = {}


def setup(tier):
    import wildwood.preprocessing.features_bitarray as m
    for name in ("array_to_bitarray", "features_bitarray_to_array", "features_bitarray_fill_column",
                 "FeaturesBitArray", "get_value"):
        A[name] = getattr(m, name, None)


def fn(name):
    if A.get(name) is None:
        raise SeamError(name)
    return A[name]


def cases(tier):
    th = tier == "thorough"
    # every small matrix
    for n in range(1, 8 if th else 6):
        for v in itertools.product(range(4 if n < 7 else 3), repeat=n):
            yield ["all", n, 1, list(v)]
    for n in range(1, 4):
        for v in itertools.product(range(4), repeat=2 * n):
            yield ["all", n, 2, list(v)]
    for v in itertools.product(range(3), repeat=6):
        yield ["all", 2, 3, list(v)]
    # every width, every row count up to beyond two or three words, patterns with every position
    for b in range(1, 41 if th else 34):
        vpw = 64 // b
        for mx in sorted(set([2 ** (b - 1), 2 ** b - 1, 2 ** b - 2] if b > 1 else [0, 1])):
            if b > 1 and mx.bit_length() != b:
                continue
            for n in range(1, (3 if th else 2) * vpw + 3):
                yield ["width", mx, n]
    # every maximum value up to a bound, and the neighbours of every power of two
    for mx in range(0, 5000 if th else 1100):
        yield ["width", mx, 67]
    for b in range(10, 41):
        for d in (-2, -1, 0, 1):
            yield ["width", 2 ** b + d, 33]
    # columns of different widths next to each other
    W = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 100, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 31, 2 ** 32 - 1]
    for a, b in itertools.product(W, repeat=2):
        for n in (1, 2, 7, 8, 9, 16, 21, 31, 32, 33, 63, 64, 65, 128):
            yield ["cols", [a, b], n]
    for t in itertools.product([0, 1, 3, 6, 255, 300, 2 ** 20], repeat=3):
        for n in (1, 7, 32, 64, 65):
            yield ["cols", list(t), n]
    for F in list(range(1, 80)):
        yield ["cols", [(j * j + 3) % 300 for j in range(F)], 40]
        yield ["cols", [2 ** ((j * 5) % 20) - 1 for j in range(F)], 65]


def packed(X, how):
    if how == "matrix":
        with impl("array_to_bitarray"):
            return fn("array_to_bitarray")(X)
    FB, fill = fn("FeaturesBitArray"), fn("features_bitarray_fill_column")
    try:
        fb = FB(X.shape[0], X.max(axis=0, initial=0).astype(np.uint64))
    except TypeError as e:
        raise SeamError("FeaturesBitArray: %s" % e)
    for j in (range(X.shape[1]) if how == "fill" else reversed(range(X.shape[1]))):
        col = np.ascontiguousarray(X[:, j])
        if how == "fill":  # what the encoder does: signed codes, in order; unsigned the other way round
            mx = int(col.max(initial=0))
            col = col.astype(np.int8 if mx < 128 else np.int16 if mx < 2 ** 15 else np.int32 if mx < 2 ** 31
                             else np.int64)
        with impl("features_bitarray_fill_column"):
            fill(fb, j, col)
    return fb


def verify(X, ctx, full=True):
    mx = int(X.max(initial=0))
    need = np.maximum(1, [int(v).bit_length() for v in X.max(axis=0, initial=0)])
    dts = [d for d in DT if mx <= np.iinfo(d).max]
    variants = [(X.astype(d, order=o), "matrix") for d in (dts if full else dts[:1]) for o in ("F", "C")[:2 if full else 1]]
    variants.append((X, "fill"))
    if full:
        variants.append((X, "fillr"))
    for Y, how in variants:
        fb = packed(Y, how)
        with impl("features_bitarray_to_array"):
            Z = fn("features_bitarray_to_array")(fb)
        require(Z.shape == X.shape, "shape %s instead of %s", Z.shape, X.shape)
        if not np.array_equal(Z.astype(np.uint64), X.astype(np.uint64)):
            i, j = np.argwhere(Z.astype(np.uint64) != X.astype(np.uint64))[0]
            require(False, "entry (%d,%d) is %s, stored %s (%s, %s)", i, j, Z[i, j], X[i, j], how, Y.dtype)
        require(fb.n_samples == X.shape[0] and fb.n_features == X.shape[1], "wrong dimensions recorded")
        nb = getattr(fb, "n_bits", None)
        if nb is not None:
            require(np.array_equal(np.asarray(nb, dtype=np.int64), need), "bits per column %s, minimum %s",
                    list(nb), need.tolist())
        ba = getattr(fb, "bitarray", None)
        if ba is not None:
            words = sum(-(-X.shape[0] // (64 // int(b))) for b in need)
            require(ba.size == words, "%d words allocated, %d needed", ba.size, words)
        ctx.add("transitions", X.size)
    if full and A.get("get_value") is not None and X.size <= 200:
        for i in range(X.shape[0]):
            for j in range(X.shape[1]):
                with impl("get_value"):
                    v = A["get_value"](fb, i, j)
                require(int(v) == int(X[i, j]), "get_value(%d,%d) is %s, stored %s", i, j, v, X[i, j])
    ctx.add("traces", len(variants))
    ctx.state((tuple(need.tolist()), X.shape[0], mx))


def check(case, ctx):
    if case[0] == "all":
        _, n, F, v = case
        verify(np.array(v, dtype=np.uint64).reshape(n, F), ctx)
    elif case[0] == "width":
        _, mx, n = case
        base = np.arange(n, dtype=np.uint64)
        m = np.uint64(mx)
        pats = [np.full(n, m), base % (m + np.uint64(1)), m - base % (m + np.uint64(1)),
                np.where(base % np.uint64(2) == 0, m, np.uint64(0)), (base * np.uint64(2654435761)) % (m + np.uint64(1))]
        for k, p in enumerate(pats):
            verify(p.reshape(n, 1).astype(np.uint64), ctx, full=k == 1)
        for pos in range(n if n <= 70 else 0):
            e = np.zeros((n, 1), dtype=np.uint64)
            e[pos] = m
            verify(e, ctx, full=False)
    else:
        _, mxs, n = case
        X = np.zeros((n, len(mxs)), dtype=np.uint64)
        for j, mx in enumerate(mxs):
            X[:, j] = (np.arange(n) * (j + 1) + j) % (mx + 1)
            X[n - 1 - (j % n), j] = mx
        verify(X, ctx)
        for j in range(min(3, len(mxs))):  # one column full, the others empty
            E = np.zeros_like(X)
            E[:, j] = mxs[j]
            verify(E, ctx, full=False)
