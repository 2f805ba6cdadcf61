"""Finite families of tree-growing inputs, enumerated completely.

A compact case is (family name, index tuple of in-bag symbols, index tuple of out-of-bag symbols,
index of the configuration); a symbol is (bins, label, weight)."""
import itertools

FAM = {}


def cwr(k, sizes):
    for s in sizes:
        yield from itertools.combinations_with_replacement(range(k), s)


def fam(name, kind, bins, labels, cat, cfgs, tr, va, weights=(1.0,), ncls=None, order=None, seqs=False,
        exact=True):
    symbols = [(b, y, w) for b in bins for y in labels for w in weights]
    FAM[name] = dict(kind=kind, symbols=symbols, cat=list(cat), cfgs=list(cfgs), tr=tr, va=va,
                     ncls=ncls or (max(int(v) for v in labels) + 1 if kind == "clf" else 1),
                     seqs=seqs, exact=exact)
    return name


def enum(names):
    for name in names:
        F = FAM[name]
        k = len(F["symbols"])
        for t in (itertools.chain(*[itertools.product(range(k), repeat=s) for s in F["tr"]])
                  if F["seqs"] else cwr(k, F["tr"])):
            if not any(F["symbols"][i][2] > 0 for i in t):
                continue  # a tree with no weight at all is not a valid input
            for v in cwr(k, F["va"]):
                for c in range(len(F["cfgs"])):
                    yield [name, list(t), list(v), c]


def expand(case):
    """Builds the real input: in-bag and out-of-bag samples interleaved, in an order that depends on the case."""
    if isinstance(case, dict):
        return case
    name, t, v, c = case
    F = FAM[name]
    mode = (sum(t) + 3 * sum(v) + c) % 3
    ts, vs = list(t), list(v)
    if mode == 1 and not F["seqs"]:
        ts.reverse()
    elif mode == 2:
        if not F["seqs"]:
            ts = ts[1:] + ts[:1]
        vs.reverse()
    X, y, w, tr, va = [], [], [], [], []

    def put(s, dest):
        b, lab, wt = F["symbols"][s]
        dest.append(len(X))
        X.append(list(b))
        y.append(lab)
        w.append(wt)
    i = j = 0
    while i < len(ts) or j < len(vs):
        if mode != 0 and j < len(vs):
            put(vs[j], va)
            j += 1
        if i < len(ts):
            put(ts[i], tr)
            i += 1
        if mode == 0 and j < len(vs):
            put(vs[j], va)
            j += 1
    return dict(kind=F["kind"], ncls=F["ncls"], cat=F["cat"], X=X, y=y, w=w, tr=tr, va=va,
                cfg=dict(F["cfgs"][c]), exact=F["exact"])


def combos(**kw):
    keys = list(kw)
    return [dict(zip(keys, vals)) for vals in itertools.product(*[kw[k] for k in keys])]


def labelled(kind, n, labels, ncls, cat, cfgs, valid, vlabels):
    """Explicit family: one in-bag sample per bin 0..n-1 with every labelling, fixed out-of-bag bins with
    every labelling of a small set."""
    for lab in itertools.product(labels, repeat=n):
        for vl in vlabels:
            for c in cfgs:
                X = [[b] for b in range(n)] + [[b] for b in valid]
                yield dict(kind=kind, ncls=ncls, cat=cat, X=X, y=list(lab) + list(vl),
                           w=[1.0] * len(X), tr=list(range(n)), va=list(range(n, n + len(valid))), cfg=dict(c))
