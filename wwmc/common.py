"""Shared vocabulary of the checks."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold on the case being explored."""


class SeamError(Exception):
    """A private seam the harness uses is not there (refactored code): skip, never alarm."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class impl:
    """with impl("fit"): ...   an exception of the code under test on a valid input is a violation."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Violation, SeamError, KeyboardInterrupt, SystemExit, TimeoutError)):
            return False
        if issubclass(et, MemoryError):
            return False
        raise Violation("%s raised %s: %s" % (self.what, et.__name__, str(ev)[:300])) from ev


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.counts = {}
        self.states = set()
        self.nontrivial = set()
        self.samples = []
        self.skips = {}
        self.outcomes = set()

    def beat(self):
        """still alive (a case made of many executions)"""

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, key):
        self.states.add(h64(key))

    def nt(self, key):
        self.nontrivial.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1


def h64(key):
    if not isinstance(key, bytes):
        key = repr(key).encode()
    return hashlib.blake2b(key, digest_size=8).digest()


def jdump(o):
    def default(v):
        try:
            return v.item()
        except AttributeError:
            pass
        try:
            return v.tolist()
        except AttributeError:
            return repr(v)
    return json.dumps(o, default=default)
