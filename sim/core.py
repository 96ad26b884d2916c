"""Seeded randomness, violations, event logs, and the scenario interface."""
from __future__ import annotations

import hashlib
import json
import random
import struct
from collections import Counter

import numpy as np


class Violation(Exception):
    """The property is broken on this run."""

    def __init__(self, cls: str, msg: str):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Injected(Exception):
    """An error the simulator injected and the library passed on to the caller."""


class InjectedFault(Exception):
    """Raised inside user code by the simulator."""


MARK = "SIM-INJECTED"

_KINDS = (None, TypeError, ValueError, AttributeError, IndexError, KeyError, ZeroDivisionError, AssertionError, NotImplementedError, FloatingPointError, LookupError, RuntimeError, OSError)
_FAULTS = [InjectedFault if k is None else type("Injected" + k.__name__, (InjectedFault, k), {}) for k in _KINDS]


def fault_of(i, msg=MARK):
    """An injected exception; the number selects which standard exception type it also is."""
    return _FAULTS[i % len(_FAULTS)](msg)


def rng_for(*parts) -> random.Random:
    h = hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(h, "big"))


def prf(*parts) -> float:
    """Keyed pseudo-random function to [0, 1): order independent fault decisions."""
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, (bytes, bytearray)):
            h.update(b"b" + p)
        elif isinstance(p, np.ndarray):
            h.update(b"a" + p.tobytes())
        else:
            h.update(b"s" + str(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest(), "big") / 2.0**64


def to_jsonable(o):
    if isinstance(o, np.ndarray):
        return to_jsonable(o.tolist())
    if isinstance(o, (np.floating, float)):
        o = float(o)
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, dict):
        return {str(k): to_jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [to_jsonable(v) for v in o]
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


class Log:
    """Event log of one run.  Only its digest is kept unless `keep` is set."""

    def __init__(self, keep=False):
        self.h = hashlib.blake2b(digest_size=10)
        self.keep = keep
        self.events = []
        self.n = 0

    def __call__(self, *ev):
        self.n += 1
        for e in ev:
            if isinstance(e, np.ndarray):
                self.h.update(str(e.dtype).encode() + str(e.shape).encode() + np.ascontiguousarray(e).tobytes())
            elif isinstance(e, float):
                self.h.update(struct.pack("<d", e))
            else:
                self.h.update(repr(e).encode())
            self.h.update(b";")
        if self.keep:
            self.events.append(to_jsonable(ev))

    def digest(self):
        return self.h.hexdigest()


class Ctx:
    """Per-run context handed to a scenario."""

    def __init__(self, keep_log=False):
        self.log = Log(keep_log)
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0          # simulated steps (operations, callbacks served, rounds)
        self.sim_time = 0.0     # simulated time where the scenario has a clock
        self.sched = hashlib.blake2b(digest_size=10)
        self.nontrivial = False

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def choice(self, *what):
        """Record a scheduling-relevant fact: defines which interleaving/state sequence this run was."""
        self.sched.update(repr(what).encode())


class Scenario:
    id = "?"
    components_real: list = []
    components_stub: list = []
    rule = ""
    measure = ""
    hang_is_violation = False
    runs_per_block = 20
    blocks = {"quick": 16, "thorough": 160}

    def gen_block(self, rng, tier):
        return {}

    def gen_run(self, rng, block, tier):
        raise NotImplementedError

    def setup(self, block):
        return None

    def execute(self, env, plan, ctx: Ctx):
        raise NotImplementedError

    # ---- minimisation: candidate simpler plans, most aggressive first
    list_fields = ("ops", "faults")

    def shrink(self, plan):
        for f in self.list_fields:
            seq = plan.get(f)
            if not isinstance(seq, list) or not seq:
                continue
            n = len(seq)
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    cand = seq[:start] + seq[start + size:]
                    if len(cand) < n:
                        yield {**plan, f: cand}
                size //= 2
        yield from self.shrink_more(plan)

    def shrink_more(self, plan):
        return iter(())


def expect(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg if isinstance(msg, str) else msg())


def is_injected(e: BaseException) -> bool:
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, (InjectedFault, Injected)) or MARK in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def lib(fn, *a, **k):
    """Call into the library: injected errors come back as Injected, anything else unexpected is a violation."""
    try:
        return fn(*a, **k)
    except (Violation, Injected):
        raise
    except Exception as e:  # noqa: BLE001
        if is_injected(e):
            raise Injected(MARK) from e
        raise Violation("unexpected-exception", f"{type(e).__name__}: {str(e)[:400]}") from e


def bits_equal(a, b) -> bool:
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == "f":
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def dumps(o):
    return json.dumps(to_jsonable(o), sort_keys=True)
