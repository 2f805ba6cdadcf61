"""Runner: enumerates the cases of one property on all cores and writes the evidence."""
import argparse
import gc
import importlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("WWMC_SRC", "/repo")
sys.path.insert(0, SRC)

from wwmc.common import Violation, SeamError, Ctx, jdump  # noqa: E402

HANG_S = float(os.environ.get("WWMC_HANG", "150"))


def import_target():
    import wildwood
    f = os.path.realpath(wildwood.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit("wildwood imported from %s instead of %s" % (f, SRC))


def run_case(mod, case, ctx):
    """None if fine, else the message of the violation."""
    try:
        mod.check(case, ctx)
    except Violation as e:
        return str(e)
    except SeamError as e:
        ctx.skip(str(e))
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        ctx.skip("MemoryError")
    except BaseException:
        return "the result could not be interpreted: " + traceback.format_exc()[-1500:]
    return None


def beat(slot, w, i):
    def f():
        slot[8 * w:8 * w + 8] = struct.pack("<Q", (int(time.time()) << 28 | (i & 0xFFFFFFF)))
    return f


class Claims:
    """The indices of the cases, handed out in runs: a pipe holds the next one that is free."""

    def __init__(self):
        self.r, self.w = os.pipe()
        os.write(self.w, struct.pack("<Q", 0))
        self.lo = self.hi = 0
        self.t = 0.0
        self.size = 1

    def next(self):
        if self.lo == self.hi:
            now = time.time()
            if self.t:
                self.size = min(64, self.size * 2) if now - self.t < 0.05 else max(1, self.size // 4)
            self.t = now
            self.lo = struct.unpack("<Q", os.read(self.r, 8))[0]
            self.hi = self.lo + self.size
            os.write(self.w, struct.pack("<Q", self.hi))
        self.lo += 1
        return self.lo - 1


def worker(mod, tier, w, n, slot, pipe, deadline, claims):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    ctx = Ctx()
    done = 0
    complete = True
    viol = None
    nth = 1
    i = -1
    mine = None
    for i, case in enumerate(mod.cases(tier)):
        if mine is None:
            mine = claims.next()
        if i != mine:
            continue
        mine = None
        if deadline and time.time() > deadline:
            complete = False
            break
        if slot[8 * n] == 1:
            complete = False
            break
        slot[8 * w:8 * w + 8] = struct.pack("<Q", (int(time.time()) << 28 | (i & 0xFFFFFFF)))
        ctx.beat = beat(slot, w, i)
        msg = run_case(mod, case, ctx)
        done += 1
        if done == nth and len(ctx.samples) < 3:
            ctx.samples.append(jdump(case)[:600])
            nth *= 50
        if msg is not None:
            viol = (i, jdump(case), msg)
            slot[8 * n] = 1
            complete = False
            break
    if hasattr(mod, "finish_worker") and viol is None:
        mod.finish_worker(ctx)
    slot[8 * w:8 * w + 8] = struct.pack("<Q", 0)
    out = dict(w=w, done=done, last=i, complete=complete, viol=viol, counts=ctx.counts,
               states=b"".join(ctx.states), nt=b"".join(ctx.nontrivial),
               outcomes=b"".join(ctx.outcomes), samples=ctx.samples, skips=ctx.skips)
    data = pickle.dumps(out)
    mv = memoryview(struct.pack("<Q", len(data)) + data)
    while mv:
        k = os.write(pipe, mv[:1 << 16])
        mv = mv[k:]


def nth_case(mod, tier, idx):
    for i, c in enumerate(mod.cases(tier)):
        if i == idx:
            return jdump(c)
    return "null"


def explore(mod, tier, budget):
    n = int(os.environ.get("WWMC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    n = min(n, getattr(mod, "MAX_WORKERS", n))
    slot = mmap.mmap(-1, 8 * n + 8)
    deadline = time.time() + budget if budget else 0
    procs = {}
    claims = Claims()
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                worker(mod, tier, w, n, slot, wr, deadline, claims)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(wr)
        procs[r] = dict(w=w, pid=pid, buf=b"")
    results, viols, errors = [], [], []

    def reap(r):
        p = procs.pop(r)
        os.close(r)
        _, st = os.waitpid(p["pid"], 0)
        if len(p["buf"]) >= 8 and len(p["buf"]) - 8 == struct.unpack("<Q", p["buf"][:8])[0]:
            res = pickle.loads(p["buf"][8:])
            results.append(res)
            if res["viol"]:
                viols.append(res["viol"])
            return
        v = struct.unpack("<Q", slot[8 * p["w"]:8 * p["w"] + 8])[0]
        if os.WIFSIGNALED(st) and v and os.WTERMSIG(st) != signal.SIGKILL:
            idx = v & 0xFFFFFFF
            viols.append((idx, nth_case(mod, tier, idx),
                          "the process died with signal %d" % os.WTERMSIG(st)))
            slot[8 * n] = 1
        elif p.get("hang") is not None:
            idx = p["hang"]
            viols.append((idx, nth_case(mod, tier, idx), "no result after %d s" % HANG_S))
            slot[8 * n] = 1
        else:
            errors.append("worker %d ended with status %d" % (p["w"], st))

    while procs:
        rl, _, _ = select.select(list(procs), [], [], 2.0)
        for r in rl:
            d = os.read(r, 1 << 20)
            if d:
                procs[r]["buf"] += d
            else:
                reap(r)
        now = time.time()
        for r, p in list(procs.items()):
            v = struct.unpack("<Q", slot[8 * p["w"]:8 * p["w"] + 8])[0]
            if v and now - (v >> 28) > HANG_S and p.get("hang") is None:
                p["hang"] = v & 0xFFFFFFF
                os.kill(p["pid"], signal.SIGKILL)
    return results, viols, errors


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: property=%s " % pid):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    warnings.simplefilter("ignore")
    gc.disable()  # compiling at import allocates a lot and frees little
    mod = importlib.import_module("wwmc.props." + a.id.lower())
    if getattr(mod, "INSTRUMENT", False) and not os.environ.get("WWMC_NOINSTR"):
        from wwmc import instr
        instr.install(SRC)
        try:
            import_target()
            mod.probe()
        except SeamError:
            raise
        except Exception:
            # the instrumented code does not compile: explore the Python level only
            traceback.print_exc()
            os.environ["WWMC_NOINSTR"] = "1"
            sys.stdout.flush()
            sys.stderr.flush()
            os.execv(sys.executable, [sys.executable, "-m", "wwmc.main"] + sys.argv[1:])
    import_target()
    import numpy as np
    np.seterr(all="ignore")
    if hasattr(mod, "setup"):
        mod.setup(tier)
    gc.collect()
    gc.freeze()
    gc.enable()
    t1 = time.time()
    if a.replay:
        case = json.load(open(a.replay))["case"]
        msg = run_case(mod, case, Ctx())
        print("replay: %s" % (msg or "no violation"))
        if msg:
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
            sys.exit(1)
        sys.exit(0)
    budget = float(os.environ.get("WWMC_BUDGET", "0")) or getattr(mod, "BUDGET", {}).get(
        tier, 420 if tier == "quick" else 5400)
    results, viols, errors = explore(mod, tier, budget)
    counts, skips = {}, {}
    states, nts, outs, samples = set(), set(), set(), []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["skips"].items():
            skips[k] = skips.get(k, 0) + v
        for name, acc in (("states", states), ("nt", nts), ("outcomes", outs)):
            b = r[name]
            acc.update(b[i:i + 8] for i in range(0, len(b), 8))
        samples += r["samples"]
    done = sum(r["done"] for r in results)
    complete = bool(results) and all(r["complete"] for r in results) and not errors
    cov = dict(getattr(mod, "COVERAGE", {}))
    level = getattr(mod, "LEVEL", "model_checking")
    if level == "model_checking":
        cov.update(states=len(states), transitions=counts.pop("transitions", 0),
                   traces_validated_against_impl=counts.pop("traces", done))
    else:
        cov.update(evaluations=counts.pop("evaluations", done), distinct_nontrivial=len(nts or states),
                   rule=mod.RULE)
    cov.update(samples=samples[:8], exhaustive=complete and not skips, cases=done,
               distinct_outcomes=len(outs), counters=counts)
    if skips:
        cov["skipped"] = skips
    if errors:
        cov["errors"] = errors
    ev = dict(property=a.id, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
        f.write(jdump(ev) + "\n")
    for k in known_findings(a.id):
        print("KNOWN-FINDING: property=%s %s" % (a.id, k))
    print("%s tier=%s cases=%d states=%d outcomes=%d counters=%s skips=%s exhaustive=%s "
          "import=%.1fs wall=%.1fs" % (a.id, tier, done, len(states), len(outs), counts, skips,
                                       cov["exhaustive"], t1 - t0, time.time() - t0))
    if viols:
        viols.sort(key=lambda v: v[0])
        idx, case, msg = viols[0]
        rp = os.path.join(HERE, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%s-%d.json" % (a.id, tier, idx))
        with open(path, "w") as f:
            json.dump(dict(property=a.id, tier=tier, index=idx, case=json.loads(case), message=msg), f)
        print("case: " + case[:2000])
        print("why: " + msg)
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        sys.exit(1)
    if errors:
        print("ERROR: " + "; ".join(errors))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
