"""Reference model of a tree: plain Python, float64, written from the documentation.

The structure (children, split of each node) is read from the grown tree; everything else - who goes
where, counts, predictions, losses, aggregation weights, best splits - is recomputed here."""
import itertools
import math

from wwmc.common import Violation, require

EPS = 2.0 ** -23


def goes_left(N, v, row):
    b = row[N.feature[v]]
    if N.is_split_categorical[v]:
        return b in N.partition[v]
    return b <= N.bin_threshold[v]


def structure(N, nfeat, cat):
    """Well-formedness: a binary tree rooted at 0 that contains every node exactly once."""
    require(N.n >= 1, "the tree has no node")
    seen = [False] * N.n
    stack = [(0, 0)]
    while stack:
        v, d = stack.pop()
        require(0 <= v < N.n, "child %s does not exist (%d nodes)", v, N.n)
        require(not seen[v], "node %d is reached twice", v)
        seen[v] = True
        require(N.depth[v] == d, "node %d has depth %s instead of %d", v, N.depth[v], d)
        if not N.is_leaf[v]:
            l, r = N.left_child[v], N.right_child[v]
            f = N.feature[v]
            require(0 <= f < nfeat, "node %d splits on feature %s of %d", v, f, nfeat)
            require(bool(N.is_split_categorical[v]) == bool(cat[f]),
                    "node %d: split type does not match the type of feature %d", v, f)
            for c in (l, r):
                require(0 <= c < N.n and N.parent[c] == v, "node %d: parent of its child %s is wrong", v, c)
            stack.append((l, d + 1))
            stack.append((r, d + 1))
    require(all(seen), "some node is not reachable from the root")


def route(N, X, idx):
    """node -> list of the samples of idx it contains (all nodes)."""
    cell = [[] for _ in range(N.n)]
    leaf = {}
    for i in idx:
        v = 0
        row = X[i]
        cell[0].append(i)
        while not N.is_leaf[v]:
            v = N.left_child[v] if goes_left(N, v, row) else N.right_child[v]
            cell[v].append(i)
        leaf[i] = v
    return cell, leaf


def leaf_of(N, row):
    v = 0
    while not N.is_leaf[v]:
        v = N.left_child[v] if goes_left(N, v, row) else N.right_child[v]
    return v


def path_of(N, row):
    v = 0
    p = [0]
    while not N.is_leaf[v]:
        v = N.left_child[v] if goes_left(N, v, row) else N.right_child[v]
        p.append(v)
    return p


def node_pred(kind, ncls, dirichlet, y, w, cell):
    if kind == "clf":
        tot = [0.0] * ncls
        s = 0.0
        for i in cell:
            tot[int(y[i])] += w[i]
            s += w[i]
        den = s + ncls * dirichlet
        if den <= 0:
            return None
        return [(t + dirichlet) / den for t in tot]
    s = sum(w[i] for i in cell)
    if s <= 0:
        return None
    return [sum(w[i] * y[i] for i in cell) / s]


def node_loss(kind, y, w, pred, cell):
    """(loss, absolute error bound of a float32 evaluation)"""
    L, E = 0.0, 0.0
    if kind == "clf":
        for i in cell:
            if w[i] == 0:
                continue
            p = pred[int(y[i])]
            if p <= 0:
                return math.inf, math.inf
            t = -w[i] * math.log(p)
            L += t
            E += EPS * (abs(t) * (len(cell) + 8) + 8 * w[i])
    else:
        m = pred[0]
        ymax = max([abs(v) for v in y] + [abs(m)])
        em = 24 * EPS * ymax
        for i in cell:
            d = abs(y[i] - m)
            t = w[i] * d * d
            L += t
            E += EPS * t * (len(cell) + 8) + w[i] * (2 * d * em + em * em)
    return L, E


def prunings(N, v):
    """All prunings of the subtree at v, as (number of prior factors 1/2, list of leaves)."""
    if N.is_leaf[v]:
        return [(0, (v,))]
    out = [(1, (v,))]
    for a, la in prunings(N, N.left_child[v]):
        for b, lb in prunings(N, N.right_child[v]):
            out.append((a + b + 1, la + lb))
    return out


def n_prunings(N, v=0):
    if N.is_leaf[v]:
        return 1
    return 1 + n_prunings(N, N.left_child[v]) * n_prunings(N, N.right_child[v])


def brute_force(N, loss, preds, step, path):
    """The average over all prunings, literally: sum_T pi(T) exp(-step L_T) y_T(x) / sum_T ..."""
    pr = prunings(N, 0)
    on = set(path)
    logs = [-k * math.log(2.0) - step * sum(loss[v] for v in lv) for k, lv in pr]
    m = max(logs)
    den = 0.0
    num = [0.0] * len(preds[0])
    for (k, lv), lg in zip(pr, logs):
        e = math.exp(lg - m)
        den += e
        hit = [v for v in lv if v in on]
        p = preds[hit[0]]
        for c in range(len(num)):
            num[c] += e * p[c]
    return [a / den for a in num]


def log_weights(N, loss, err, step):
    """CTW recursion in float64 with an error bound for the float32 one."""
    lw = [0.0] * N.n
    le = [0.0] * N.n
    order = []
    stack = [0]
    while stack:
        v = stack.pop()
        order.append(v)
        if not N.is_leaf[v]:
            stack += [N.left_child[v], N.right_child[v]]
    for v in reversed(order):
        a = -step * loss[v]
        ea = step * err[v] + 4 * EPS * abs(a)
        if N.is_leaf[v]:
            lw[v], le[v] = a, ea
        else:
            l, r = N.left_child[v], N.right_child[v]
            b = lw[l] + lw[r]
            eb = le[l] + le[r] + 4 * EPS * (abs(lw[l]) + abs(lw[r]))
            m = max(a, b)
            lw[v] = m + math.log(0.5 * (math.exp(a - m) + math.exp(b - m)))
            le[v] = max(ea, eb) + 8 * EPS * (abs(m) + 1)
    return lw, le


def sigmoid(d):
    if d >= 0:
        return 1.0 / (1.0 + math.exp(-d))
    e = math.exp(d)
    return e / (1.0 + e)


def aggregated(N, loss, err, preds, lw, le, step, path):
    """(value, low, high) per output component."""
    K = len(preds[0])
    v = path[-1]
    val, lo, hi = list(preds[v]), list(preds[v]), list(preds[v])
    for v in reversed(path[:-1]):
        l, r = N.left_child[v], N.right_child[v]
        a = -step * loss[v]
        b = lw[l] + lw[r]
        d = a - b
        ed = step * err[v] + le[l] + le[r] + 8 * EPS * (abs(a) + abs(lw[l]) + abs(lw[r]) + 1)
        al, a0, ah = sigmoid(d - ed), sigmoid(d), sigmoid(d + ed)
        for c in range(K):
            p = preds[v][c]
            val[c] = a0 * p + (1 - a0) * val[c]
            cand = (al * p + (1 - al) * lo[c], ah * p + (1 - ah) * lo[c])
            cand2 = (al * p + (1 - al) * hi[c], ah * p + (1 - ah) * hi[c])
            lo[c], hi[c] = min(cand), max(cand2)
    return val, lo, hi


# ---------------------------------------------------------------- splits

def impurity(kind, crit, ncls, y, w, cell):
    W = sum(w[i] for i in cell)
    if W <= 0:
        return 0.0, 0.0
    if kind == "clf":
        t = [0.0] * ncls
        for i in cell:
            t[int(y[i])] += w[i]
        if crit == "entropy":
            return -sum((v / W) * math.log(v / W) for v in t if v > 0), W
        return 1.0 - sum(v * v for v in t) / (W * W), W
    m = sum(w[i] * y[i] for i in cell) / W
    return sum(w[i] * (y[i] - m) ** 2 for i in cell) / W, W


def cost(kind, crit, ncls, y, w, left, right):
    a, wa = impurity(kind, crit, ncls, y, w, left)
    b, wb = impurity(kind, crit, ncls, y, w, right)
    return a * wa + b * wb, wa, wb


def tie_orders(keys, tol=1e-6):
    """All orders of range(len(keys)) increasing in keys, ties in any order (None keys: anywhere)."""
    n = len(keys)
    free = [i for i in range(n) if keys[i] is None]
    fixed = [i for i in range(n) if keys[i] is not None]
    fixed.sort(key=lambda i: keys[i])
    groups = []
    for i in fixed:
        if groups and keys[i] - keys[groups[-1][-1]] <= tol:
            groups[-1].append(i)
        else:
            groups.append([i])
    if free:
        if n > 6:
            return None
        out = []
        for p in itertools.permutations(range(n)):
            q = [i for i in p if keys[i] is not None]
            if all(keys[q[k + 1]] - keys[q[k]] >= -tol for k in range(len(q) - 1)):
                out.append(p)
        return out
    sz = 1
    for g in groups:
        sz *= math.factorial(len(g))
    if sz > 720:
        return None
    return [tuple(itertools.chain(*p)) for p in itertools.product(*[itertools.permutations(g) for g in groups])]


def feature_orders(case, f, cell, tie_limit=None):
    """For a feature: list (over sorting classes) of lists (over tie orders) of orders of the occupied bins."""
    X, y, w = case["X"], case["y"], case["w"]
    bins = sorted(set(X[i][f] for i in cell))
    if not case["cat"][f]:
        return bins, [[tuple(range(len(bins)))]]
    groups = {b: [i for i in cell if X[i][f] == b] for b in bins}
    if case["kind"] == "reg":
        keys = []
        for b in bins:
            s = sum(w[i] for i in groups[b])
            keys.append(sum(w[i] * y[i] for i in groups[b]) / s if s > 0 else None)
        return bins, [tie_orders(keys)]
    out = []
    strat = case["cfg"].get("cat_split_strategy", "binary")
    classes = [1] if strat == "binary" else list(range(case.get("ncls", 2)))
    for k in classes:
        keys = []
        for b in bins:
            s = sum(w[i] for i in groups[b])
            keys.append(sum(w[i] for i in groups[b] if int(y[i]) == k) / s if s > 0 else None)
        out.append(tie_orders(keys))
    return bins, out


def admissible(case, ctr, cva, left_bins, f, is_cat, thr=None):
    """(ok, left train, right train) for a split given by its set of left bins / threshold."""
    X, w, cfg = case["X"], case["w"], case["cfg"]
    msl = cfg.get("min_samples_leaf", 1)
    agg = cfg.get("aggregation", True)
    if is_cat:
        test = lambda i: X[i][f] in left_bins  # noqa: E731
    else:
        test = lambda i: X[i][f] <= thr  # noqa: E731
    L = [i for i in ctr if test(i)]
    R = [i for i in ctr if not test(i)]
    ok = len(L) >= max(1, msl) and len(R) >= max(1, msl)
    if ok and agg:
        vl = sum(1 for i in cva if test(i))
        ok = vl >= msl and len(cva) - vl >= msl
    if ok:
        ok = sum(w[i] for i in L) > 0 and sum(w[i] for i in R) > 0
    return ok, L, R


def best_of_feature(case, f, ctr, cva):
    """Guaranteed best (lowest) cost among admissible splits of feature f, or None if it may have none.

    Ties and random classes are resolved in favour of the code: the largest of the minima."""
    crit = case["cfg"].get("criterion")
    bins, fams = feature_orders(case, f, ctr)
    if len(bins) < 2:
        return None
    is_cat = case["cat"][f]
    per_class = []
    for orders in fams:
        if orders is None:
            return "unknown"
        worst = -math.inf
        for o in orders:
            best = math.inf
            for k in range(1, len(bins)):
                lb = frozenset(bins[j] for j in o[:k])
                ok, L, R = admissible(case, ctr, cva, lb, f, is_cat, thr=bins[o[k - 1]])
                if ok:
                    c, _, _ = cost(case["kind"], crit, case.get("ncls", 2), case["y"], case["w"], L, R)
                    best = min(best, c)
            worst = max(worst, best)
        per_class.append(worst)
    strat = case["cfg"].get("cat_split_strategy", "binary")
    if is_cat and case["kind"] == "clf" and strat == "random":
        b = max(per_class)
    else:
        b = min(per_class)
    return None if b == math.inf else b
