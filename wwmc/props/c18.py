"""C18: an interrupted dataset download never leaves a corrupt cache behind.

Every fault runs in a forked child with its own data directory.  The network is replaced below
urllib.request.urlopen; file-system operations are observed and failed through an audit hook, torn
writes come from RLIMIT_FSIZE (the kernel cuts the write at the chosen byte, whoever writes)."""
import bz2
import errno
import gzip
import hashlib
import importlib
import io
import itertools
import os
import pickle
import pkgutil
import resource
import shutil
import signal
import struct
import sys
import tempfile
import traceback
import zipfile

import numpy as np
import pandas as pd

from wwmc.common import SeamError, Violation, require

LEVEL = "fault_enumeration"
RULE = ("one case = one dataset and one or two faults (process killed or OSError at the i-th file-system operation; "
        "the i-th written file cut at byte k with the process killed or EFBIG; the response cut, corrupted or broken "
        "at byte k), followed by a load without download, a normal load and a further load; non-trivial: the fault was "
        "reached")
ASSUMPTIONS = [
    "a file renamed by os.replace/os.rename is either absent or complete (POSIX rename), writes that returned survive "
    "the death of the process (power loss is not modelled)",
    "the network is replaced below urllib.request.urlopen and the archives by small files of the same format whose "
    "SHA256 replaces the declared one; pandas.read_excel is replaced by a csv reader (no xls writer here)",
    "one process fetches at a time",
]


# ------------------------------------------------------------- synthetic archives
def csv_bytes(rows, header=None, sep=","):
    lines = [sep.join(map(str, header))] if header else []
    lines += [sep.join(map(str, r)) for r in rows]
    return ("\n".join(lines) + "\n").encode()


def adult_rows(off, dot):
    return [[20 + i + off, " Private" if i % 2 else " ?", 1000 + 17 * i, " HS" if i % 3 else " BA", 9 + i % 4, " M" if i % 2 else " N",
             " occ%d" % (i % 3), " rel", " White", " Male" if i % 2 else " Female", 10 * i, i, 40 + i, " US",
             (" >50K" if i % 2 else " <=50K") + dot] for i in range(4)]


def payloads():
    P = {}
    P["adult"] = {
        "https://archive.ics.uci.edu/ml/machine-learning-databases/adult/adult.data": b"|1x3 first line\n" + csv_bytes(adult_rows(0, "")),
        "https://archive.ics.uci.edu/ml/machine-learning-databases/adult/adult.test": b"|1x3 Cross validator\n" + csv_bytes(adult_rows(30, ".")),
    }
    cols = ["age", "job", "marital", "education", "default", "balance", "housing", "loan", "contact", "day", "month",
            "duration", "campaign", "pdays", "previous", "poutcome", "y"]
    body = csv_bytes([[30 + i, "job%d" % (i % 2), "m", "e%d" % (i % 3), "no", 100 * i, "yes", "no", "cell", i + 1, "may", 10 * i, 1, -1, 0,
                       "unk", "yes" if i % 2 else "no"] for i in range(4)], header=cols, sep=";")
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for nm, data in (("bank-full.csv", body), ("bank-names.txt", b"names")):
            z.writestr(zipfile.ZipInfo(nm, (2020, 1, 1, 0, 0, 0)), data)
    P["bank"] = {"https://archive.ics.uci.edu/ml/machine-learning-databases/00222/bank.zip": b.getvalue()}
    P["car"] = {"https://archive.ics.uci.edu/ml/machine-learning-databases/car/car.data": csv_bytes(
        [["vhigh", "low", 2 + i, "more", "small", "low" if i % 2 else "high", "unacc" if i % 2 else "acc"] for i in range(5)])}
    cols = ["ID", "LIMIT_BAL", "SEX", "EDUCATION", "MARRIAGE", "AGE"] + ["PAY_%d" % i for i in (0, 2, 3, 4, 5, 6)] + \
        ["BILL_AMT%d" % i for i in range(1, 7)] + ["PAY_AMT%d" % i for i in range(1, 7)] + ["default payment next month"]
    P["default_cb"] = {"https://archive.ics.uci.edu/ml/machine-learning-databases/00350/default%20of%20credit%20card%20clients.xls":
                       csv_bytes([["X%d" % i for i in range(25)], cols] +
                                 [[i + 1] + [(7 * i + j) % 5 for j in range(23)] + [i % 2] for i in range(4)])}
    e = lambda k: bz2.compress(("\n".join("%d 1:%g 2:%g 3:%g" % (1 if (i + k) % 2 else -1, .5 * i, k - i, 1 + i + k)
                                          for i in range(4 + k)) + "\n").encode())
    base = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/"
    P["epsilon"] = {base + "epsilon_normalized.bz2": e(0), base + "epsilon_normalized.t.bz2": e(1)}
    P["higgs"] = {"https://archive.ics.uci.edu/ml/machine-learning-databases/00280/HIGGS.csv.gz": gzip.compress(csv_bytes(
        [[float(i % 2)] + [round(0.1 * i + j, 2) for j in range(28)] for i in range(4)]), mtime=0)}
    P["internet"] = {"https://www.openml.org/data/get_csv/52407/internet_usage.arff": csv_bytes(
        [["t%d" % (i % 2), "a%d" % i, "b" if i % 2 else "", i % 3, i] for i in range(5)], header=["Actual_Time", "Age", "Community", "Bool", "who"])}
    P["amazon"] = {"https://www.openml.org/data/get_csv/1681098/phpmPOD5A": csv_bytes(
        [[i % 2] + [10 * i + j for j in range(9)] for i in range(4)],
        header=["target", "RESOURCE", "MGR_ID", "ROLE_ROLLUP_1", "ROLE_ROLLUP_2", "ROLE_DEPTNAME", "ROLE_TITLE",
                "ROLE_FAMILY_DESC", "ROLE_FAMILY", "ROLE_CODE"])}
    try:
        from wildwood.datasets import _kick
        kd = dict(_kick.dtype)
        hdr = ["IsBadBuy"] + list(kd)
        P["kick"] = {"https://www.openml.org/data/get_csv/19335679/kick.arff": csv_bytes(
            [[i % 2] + [("c%d" % (i % 2)) if t == "category" else 3 * i + j for j, t in enumerate(kd.values())] for i in range(4)],
            header=hdr)}
    except Exception:
        pass
    return P


PAYLOADS = {}
BY_URL = {}
TRACE = {}
NET = {"calls": [], "fault": None}
SCRATCH = None


class Response(io.RawIOBase):
    """what urlopen returns; hands out the payload in small pieces"""

    def __init__(self, url, data, fault):
        self.url, self.status, self.code = url, 200, 200
        self.kind = fault[0] if fault else None
        k = fault[1] if fault else None
        self.full = len(data)
        if self.kind in ("short", "shortnolen"):
            data = data[:k]
        if self.kind == "corrupt":
            data = data[:k] + bytes([data[k] ^ 0x41]) + data[k + 1:]
        self.brk = k if self.kind == "break" else None
        self.data, self.pos = data, 0
        import email.message
        self.headers = email.message.Message()
        if self.kind != "shortnolen":
            self.headers["Content-Length"] = str(self.full)

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return 200

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        n = min(n, 97)
        end = min(self.pos + n, len(self.data))
        if self.brk is not None and end >= self.brk:
            if self.pos < self.brk:
                end = self.brk
            else:
                hit()
                raise ConnectionResetError(errno.ECONNRESET, "connection reset")
        r = self.data[self.pos:end]
        if not r and self.kind in ("short", "shortnolen"):
            hit()
        if self.kind == "corrupt" and end >= len(self.data):
            hit()
        self.pos = end
        return r

    def readall(self):
        out = b""
        while True:
            r = self.read(97)
            if not r:
                return out
            out += r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)


def fake_urlopen(url, *a, **k):
    u = url if isinstance(url, str) else url.get_full_url()
    NET["calls"].append(u)
    if u not in BY_URL:
        raise OSError("no such url in the harness: %s" % u)
    f = NET["fault"]
    if f and f[2] == len(NET["calls"]) - 1:
        if f[0] == "refuse":
            hit()
            raise OSError(errno.ECONNREFUSED, "refused")
        return Response(u, BY_URL[u], f[:2])
    return Response(u, BY_URL[u], None)


def fake_read_excel(path, *a, **k):
    with open(path, "rb") as f:
        data = f.read()
    if data not in PAYLOADS["default_cb"].values():
        raise ValueError("not an excel file")
    return pd.read_csv(io.BytesIO(data), **{x: k[x] for x in k if x in ("skiprows", "header", "usecols")})


HIT = {"w": None}


def hit():
    """the fault was reached: the parent counts it"""
    if HIT["w"] is not None:
        os.write(HIT["w"], b"H")


# ------------------------------------------------------------- the audit hook of a child
WATCH = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink"}


def is_write(args):
    mode, flags = args[1], args[2]
    if isinstance(mode, str):
        return any(c in mode for c in "wax+")
    return bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))


class Hook:
    def __init__(self, root, fault):
        self.root, self.fault = root, fault
        self.on = True
        self.n = self.nw = 0
        self.events, self.sizes, self.paths = [], [], []

    def __call__(self, ev, args):
        if not self.on or ev not in WATCH:
            return
        p = args[0]
        if isinstance(p, bytes):
            p = p.decode()
        if not isinstance(p, str) or not p.startswith(self.root):
            return
        self.on = False
        try:
            self.measure()
            i = self.n
            self.n += 1
            self.events.append(ev)
            w = ev == "open" and is_write(args)
            if w:
                j = self.nw
                self.nw += 1
                self.paths.append(p)
                self.sizes.append(0)
            f = self.fault
            if f and f[0] == "op" and f[2] == i:
                hit()
                if f[1] == "kill":
                    os._exit(77)
                raise OSError(errno.ENOSPC if f[1] == "err" else errno.EIO, "injected")
            if f and f[0] == "write" and w and f[2] == j:
                hit()
                if f[1] == "kill":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (f[3], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        finally:
            self.on = True

    def measure(self):
        for j, p in enumerate(self.paths):
            if p in self.paths[j + 1:]:
                continue
            try:
                self.sizes[j] = max(self.sizes[j], os.stat(p).st_size)
            except OSError:
                pass

    def lift(self):
        self.on = False
        self.fault = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)
        NET["fault"] = None


def loader(ds):
    import wildwood.datasets as D
    f = getattr(D, "load_" + ds, None)
    if f is None:
        raise SeamError("no load_" + ds)
    return f


def canon(ds):
    """picklable content of a loaded Dataset or raw pair"""
    if isinstance(ds, tuple):
        X, y = ds
        return ("raw", [str(c) for c in X.columns], [str(t) for t in X.dtypes], X.astype(object).values.tolist(),
                np.asarray(y).ravel().tolist())
    df = ds.df_raw
    return ("ds", ds.name, ds.task, str(ds.label_column), [str(c) for c in df.columns], [str(t) for t in df.dtypes],
            df.astype(object).values.tolist(), sorted(map(str, ds.categorical_columns or [])),
            sorted(map(str, ds.continuous_columns or [])))


def same(a, b):
    return repr(a) == repr(b)


def attempt(ds, **kw):
    NET["calls"] = []
    try:
        return "ok", canon(loader(ds)(**kw)), len(NET["calls"]), ""
    except SeamError:
        raise
    except Exception as e:
        return "exc", "%s: %s" % (type(e).__name__, str(e)[:200]), len(NET["calls"]), traceback.format_exc()[-800:]


def child(fn):
    """fn(write_obj) in a forked child; (status, hits, object or None)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            HIT["w"] = w
            out = fn()
            data = pickle.dumps(out)
            HIT["w"] = None
            mv = memoryview(b"D" + data)
            while mv:
                k = os.write(w, mv[:1 << 16])
                mv = mv[k:]
        except BaseException:
            code = 9
            try:
                os.write(w, b"E" + traceback.format_exc().encode()[-2000:])
            except Exception:
                pass
        os._exit(code)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    hits = 0
    while buf[:1] == b"H":
        hits += 1
        buf = buf[1:]
    if buf[:1] == b"D":
        return "done", hits, pickle.loads(buf[1:])
    if buf[:1] == b"E":
        raise RuntimeError("harness: " + buf[1:].decode())
    if (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77) or (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXFSZ):
        return "killed", hits, None
    return "died(%d)" % st, hits, None


def faulty_run(ds, root, fault, raw):
    """one load with a fault, in the child; then the retry in the same process if it only got an error"""
    hook = Hook(root, fault if fault[0] in ("op", "write") else None)
    NET["fault"] = (fault[1], fault[3], fault[2]) if fault[0] == "net" else None
    sys.addaudithook(hook)
    res = attempt(ds, raw=raw)
    hook.lift()
    again = None
    if res[0] == "exc":
        again = attempt(ds, raw=raw)
    return res, again


def record(ds, root):
    hook = Hook(root, None)
    sys.addaudithook(hook)
    a = attempt(ds)
    hook.on = False
    hook.measure()
    listing = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)
    b = attempt(ds)
    c = attempt(ds, raw=True)
    return dict(first=a, second=b, raw=c, events=hook.events, sizes=hook.sizes, listing=listing, urls=list(NET["calls"]))


def with_root(fn):
    root = tempfile.mkdtemp(prefix="c18.", dir=SCRATCH)
    os.environ["WILDWOOD_DATA"] = os.path.join(root, "home")
    try:
        return fn(root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def setup(tier):
    global SCRATCH
    import logging
    import urllib.request
    import wildwood.datasets as D
    logging.disable(logging.CRITICAL)
    SCRATCH = os.path.realpath(os.environ.get("WWMC_SCRATCH") or tempfile.gettempdir())
    os.environ["HOME"] = SCRATCH
    PAYLOADS.update(payloads())
    for d in PAYLOADS.values():
        BY_URL.update(d)
    real = urllib.request.urlopen
    urllib.request.urlopen = fake_urlopen
    real_excel = pd.read_excel
    pd.read_excel = fake_read_excel
    for m in pkgutil.iter_modules(D.__path__, D.__name__ + "."):
        mod = importlib.import_module(m.name)
        for k, v in list(vars(mod).items()):
            if v is real:
                setattr(mod, k, fake_urlopen)
            elif v is real_excel:
                setattr(mod, k, fake_read_excel)
            elif hasattr(v, "_replace") and hasattr(v, "checksum") and hasattr(v, "url") and v.url in BY_URL:
                setattr(mod, k, v._replace(checksum=hashlib.sha256(BY_URL[v.url]).hexdigest()))
    for ds in PAYLOADS:
        TRACE[ds] = with_root(lambda root: child(lambda: record(ds, root)))[2]


def cut(size, step):
    ks = set(range(0, size, step)) | {0, 1, size - 1, size - 2, size // 2}
    return sorted(k for k in ks if 0 <= k < max(size, 1))


def faults(ds, step, raws=(False,)):
    t = TRACE[ds]
    if not t or t["first"][0] != "ok":
        return
    for i in range(len(t["events"]) + 1):
        for how in ("kill", "err", "eio"):
            yield ["op", how, i]
    for j, size in enumerate(t["sizes"]):
        for k in cut(size, step):
            for how in ("kill", "efbig"):
                yield ["write", how, j, k]
    for c, (u, data) in enumerate(PAYLOADS[ds].items()):
        yield ["net", "refuse", c, 0]
        for k in cut(len(data), step):
            for how in ("short", "shortnolen", "break", "corrupt"):
                yield ["net", how, c, k]


def cases(tier):
    th = tier == "thorough"
    for ds in PAYLOADS:
        yield ["clean", ds]
    its = []
    for ds in PAYLOADS:
        its.append([["fault", ds, [f], raw] for raw in (False, True)
                    for f in faults(ds, 1 if th and not raw else (16 if not raw else 64))])
        small = list(faults(ds, 10 ** 9))
        if not th:
            small = [f for f in small if not (f[0] == "op" and f[1] == "eio") and not (len(f) > 3 and f[3] == 1)]
            first = [f for f in small if f[1] in ("kill", "efbig", "shortnolen", "err")]
            second = [f for f in small if f[0] == "op" and f[1] == "kill"]
        else:
            first = second = small
        its.append([["fault", ds, [f, g], False] for i, f in enumerate(first) for j, g in enumerate(second)
                    if th or (i + j) % 2 == 0])
    for group in its:
        for c in group:
            yield c


def verify(ds, ctx, root, what):
    """fresh process: load without download, normal load, further load"""
    t = TRACE[ds]
    ref, refraw = t["first"][1], t["raw"][1]

    def run():
        a = attempt(ds, download_if_missing=False)
        b = attempt(ds)
        c = attempt(ds)
        d = attempt(ds, raw=True)
        return a, b, c, d
    st, _, out = child(run)
    require(st == "done", "%s: the next load died: %s", what, st)
    a, b, c, d = out
    require(a[2] == 0, "%s: download_if_missing=False downloads", what)
    if a[0] == "ok":
        require(same(a[1], ref), "%s: a load without download returned wrong data", what)
    require(b[0] == "ok", "%s: the next load fails: %s", what, b[1])
    require(same(b[1], ref), "%s: the next load returned wrong data", what)
    require(b[2] <= len(PAYLOADS[ds]), "%s: %d downloads", what, b[2])
    require(c[0] == "ok" and same(c[1], ref), "%s: the load after the next is wrong: %s", what, c[1] if c[0] != "ok" else "data")
    require(c[2] == 0, "%s: the load after a complete one downloads again", what)
    require(d[0] == "ok" and same(d[1], refraw) and d[2] == 0, "%s: the raw load is wrong: %s", what, d[1] if d[0] != "ok" else "data")
    ctx.outcome((ds, a[0], b[2]))


def check(case, ctx):
    kind, ds = case[0], case[1]
    if kind == "clean":
        t = TRACE.get(ds)
        if t is None:
            raise SeamError("no trace of " + ds)
        a, b, c = t["first"], t["second"], t["raw"]
        if a[0] != "ok" and a[2] == 0:
            raise SeamError("%s does not fetch through urllib: %s" % (ds, a[1]))
        require(a[0] == "ok", "an undisturbed load of %s fails: %s %s", ds, a[1], a[3])
        require(a[2] == len(PAYLOADS[ds]), "%s: %d downloads", ds, a[2])
        require(b[0] == "ok" and same(a[1], b[1]), "%s: the second load differs: %s", ds, b[1] if b[0] != "ok" else "")
        require(b[2] == 0 and c[2] == 0, "%s: loading again downloads again", ds)
        require(c[0] == "ok", "%s: raw load fails: %s", ds, c[1])
        require(len(t["listing"]) == len(PAYLOADS[ds]) if ds == "epsilon" else len(t["listing"]) == 1,
                "%s: the cache holds %s", ds, t["listing"])
        content(ds, a[1], c[1])
        ctx.nt(("clean", ds))
        ctx.add("evaluations")
        return
    _, ds, fs, raw = case

    def go(root):
        ref = TRACE[ds]["raw" if raw else "first"][1]
        reached = 0
        for f in fs:
            st, hits, out = child(lambda: faulty_run(ds, root, f, raw))
            reached += hits > 0
            require(st in ("done", "killed"), "%s %s: the process ended with %s", ds, f, st)
            if st == "done":
                res, again = out
                if res[0] == "ok":
                    require(same(res[1], ref), "%s: the load returned wrong data in spite of the fault %s", ds, f)
                if again is not None:
                    require(again[0] == "ok", "%s: after %s (%s) a retry in the same process fails: %s", ds, f, res[1], again[1])
                    require(same(again[1], ref), "%s: after %s a retry in the same process returns wrong data", ds, f)
        verify(ds, ctx, root, "%s after %s" % (ds, fs))
        ctx.add("evaluations")
        if reached:
            ctx.nt((ds, fs, raw))
        else:
            ctx.add("fault_not_reached")
    with_root(go)


def content(ds, loaded, raw):
    """the undisturbed load holds the rows of the archive, in order"""
    rows = loaded[6]
    n = {"adult": 8, "bank": 4, "car": 5, "default_cb": 4, "epsilon": 9, "higgs": 4, "internet": 5, "amazon": 4, "kick": 4}[ds]
    require(len(rows) == n and len(raw[3]) == n and len(raw[4]) == n, "%s: %d rows loaded (raw %d), %d in the archive", ds,
            len(rows), len(raw[3]), n)
    lab = loaded[3]
    cols = loaded[4]
    require(lab in cols and lab not in loaded[7] + loaded[8], "%s: label %r", ds, lab)
    require(sorted(loaded[7] + loaded[8]) == sorted(c for c in cols if c != lab), "%s: features", ds)
    j = cols.index(lab)
    require([str(r[j]) for r in rows] == [str(v) for v in raw[4]], "%s: labels of the raw load", ds)
    feats = [[str(v) for i, v in enumerate(r) if i != j] for r in rows]
    require([[str(v) for v in r] for r in raw[3]] == feats, "%s: features of the raw load", ds)
