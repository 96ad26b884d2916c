"""C15: randomised entry points under perturbed ambient entropy, time, call history and processes."""
from __future__ import annotations

import datetime
import gc
import hashlib
import json
import multiprocessing
import os
import platform
import random
import socket
import subprocess
import sys
import threading
import time
import uuid

import jax
import jax.numpy as jnp
import numpy as np

from . import env as _env
from .core import Ctx, Scenario, Violation, bits_equal, expect, lib, rng_for
from .s_batches import make_key

_REAL = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns")}
_URANDOM = os.urandom
_DATETIME = datetime.datetime


# ------------------------------------------------------------------ the randomised entry points
def _paths(tree):
    out = {}
    for p, v in jax.tree_util.tree_leaves_with_path(tree):
        if isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
            v = jax.random.key_data(v)
        out[jax.tree_util.keystr(p)] = np.asarray(v)
    return out


def e_mlp(L, key, c):
    m, p = L.model.mlp(key, c["layers"], [None, jnp.sin, jax.nn.swish][c["v"] % 3])
    return _paths(p)


def e_mlp_module(L, key, c):
    m = L.model.MLP(c["layers"][1:], [None, jnp.sin, jax.nn.swish][c["v"] % 3])
    return _paths(m.init(key, jnp.ones((c["layers"][0],))))


def e_spline(L, key, c):
    m = L.spline.SplineActivation(nodes=9 + c["v"], degree=2 + c["v"] % 2, parameterize_grid=bool(c["v"] % 2), coef_init=jax.nn.initializers.normal(0.3))
    return _paths(m.init(key, jnp.ones((c["layers"][1],))))


def e_spline_default(L, key, c):
    m = L.spline.SplineActivation()
    return _paths(m.init(key, jnp.ones((c["layers"][1],))))


def e_without(L, key, c):
    return _paths(L.opt.batches_without_replacement(key, {"i": np.arange(40), "x": np.arange(80.0).reshape(40, 2)}, 4 + c["v"]))


def e_with(L, key, c):
    return _paths(L.opt.batches_with_replacement(key, {"i": np.arange(40)}, 5 + c["v"] if c["v"] < 3 else 300, 6 if c["v"] < 3 else 14, bool(c["v"] % 2)))


def e_stream(L, key, c):
    fn = lambda k: L.opt.batches_without_replacement(k, {"i": jnp.arange(30)}, 10)
    out = {}
    for n, b in enumerate(L.opt.make_iterator(key, 3 if c["v"] < 3 else 80, fn, add_rng=bool(c["v"] % 2))):
        for p, v in _paths(b).items():
            out[f"{n}{p}"] = v
    return out


def e_rejection(L, key, c):
    pdf = lambda s: 1.0 + 0.5 * jnp.sin(6 * s["u"][0])
    return _paths(L.sampling.rejection_sampling(key, pdf, lambda k: {"u": jax.random.uniform(k, (2,))}, 12 + c["v"] if c["v"] % 3 else 600, 2 + c["v"] % 2))


ENTRIES = {f.__name__[2:]: f for f in (e_mlp, e_mlp_module, e_spline, e_spline_default, e_without, e_with, e_stream, e_rejection)}


def run_op(L, op):
    return lib(ENTRIES[op["e"]], L, make_key(op["key"], op["typed"]), op)


def digest(res):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(res):
        v = np.ascontiguousarray(res[k])
        h.update(k.encode() + str(v.dtype).encode() + str(v.shape).encode() + v.tobytes())
    return h.hexdigest()


def child_main():
    ops = json.loads(sys.stdin.read())
    L = _env.load_magpi()
    out = []
    for op in ops:
        try:
            out.append(digest(run_op(L, op)))
        except Violation as v:
            out.append("error: " + v.msg)
    sys.stdout.write("RESULT " + json.dumps(out) + "\n")


# ------------------------------------------------------------------ ambient world
class Ambient:
    """Simulated clock, operating-system entropy, environment and global generators."""

    def __init__(self, a):
        self.a = a

    def __enter__(self):
        a = self.a
        self.env = dict(os.environ)
        now = [1.7e9 + a["clock"]]
        r = rng_for(a["seed"], "ambient")

        def tick():
            now[0] += r.choice([0.0, 1e-6, 1.0, -3600.0, 86400.0]) if a["jumps"] else 1e-6
            return now[0]

        for n in ("time", "monotonic", "perf_counter"):
            setattr(time, n, tick)
        for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
            setattr(time, n, lambda: int(tick() * 1e9))

        class Clock(_DATETIME):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(tick(), tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(tick())

            @classmethod
            def today(cls):
                return cls.fromtimestamp(tick())

        datetime.datetime = Clock
        os.urandom = lambda n: bytes(r.randrange(256) for _ in range(n))
        random.seed(a["seed"])
        np.random.seed(a["seed"] % 2**32)
        if a["env"]:
            os.environ.update(TZ="Asia/Kathmandu", LANG="tr_TR.UTF-8", HOME="/nonexistent", USER="simulated", SEED=str(a["seed"]), MAGPI_SEED=str(a["seed"]))
        self.saved = (os.getpid, socket.gethostname, platform.node, os.cpu_count, os.getcwd, os._Environ.__getitem__, None, list(sys.argv))
        n = r.randrange(2, 30000)
        os.getpid, os.cpu_count, os.getcwd = (lambda: n), (lambda: 1 + n % 64), (lambda: f"/simulated/{n}")
        socket.gethostname = platform.node = lambda: f"host{n}"
        sys.argv[:] = [f"prog{n}"]
        self.more = [(o, k, getattr(o, k)) for o, k in ((os, "getppid"), (uuid, "getnode"), (threading, "active_count"), (threading, "get_ident"), (threading, "get_native_id"), (random, "_urandom"))]
        for o, k, _ in self.more:       # the library's own look-ups only: threading itself needs the real ones
            if o is not threading:
                setattr(o, k, os.urandom if k == "_urandom" else (lambda: n))
            else:
                setattr(o, k, self.asked_by_library(getattr(o, k), n))
        me = multiprocessing.current_process()
        self.proc = (me, me._identity, None, me.name)
        if n % 2:                       # as in the k-th worker of a pool
            me._identity, me.name = (n % 7 + 1,), f"SpawnPoolWorker-{n % 7 + 1}"
        if a["env"]:
            real = os._Environ.__getitem__

            def lookup(e, key):     # whatever variable the library itself asks for is set in this environment
                f = sys._getframe(1)
                for _ in range(4):
                    if f is None:
                        break
                    if f.f_globals.get("__name__", "").startswith("magpi"):
                        return str(n)
                    f = f.f_back
                    if f is not None and f.f_globals.get("__name__", "") not in ("os", "_collections_abc", "collections.abc") and not f.f_globals.get("__name__", "").startswith("magpi"):
                        break
                return real(e, key)

            os._Environ.__getitem__ = lookup
        self.junk = [bytearray(r.randrange(1, 5000)) for _ in range(r.randrange(50))]
        if a["gc"]:
            gc.collect()
        self.state = (random.getstate(), np.random.get_state())
        return self

    @staticmethod
    def asked_by_library(real, n):
        def ask():
            return n if sys._getframe(1).f_globals.get("__name__", "").startswith("magpi") else real()
        return ask

    def undisturbed(self):
        a, b = self.state
        n = np.random.get_state()
        return random.getstate() == a, n[0] == b[0] and bool(np.all(n[1] == b[1])) and n[2:] == b[2:]

    def __exit__(self, *exc):
        for n, f in _REAL.items():
            setattr(time, n, f)
        os.getpid, socket.gethostname, platform.node, os.cpu_count, os.getcwd, os._Environ.__getitem__, _, argv = self.saved
        sys.argv[:] = argv
        for o, k, f in self.more:
            setattr(o, k, f)
        me, me._identity, _, me.name = self.proc
        os.urandom = _URANDOM
        datetime.datetime = _DATETIME
        for k in list(os.environ):
            if k not in self.env:
                del os.environ[k]
        os.environ.update(self.env)


class C15(Scenario):
    id = "C15"
    components_real = ["magpi.model.mlp/MLP, magpi.spline.SplineActivation, magpi.opt batch functions and iterator, magpi.sampling.rejection_sampling", "flax initialisers, jax.random, XLA CPU", "separate operating system processes"]
    components_stub = ["clock, operating-system entropy, environment variables, global Python and NumPy generators"]
    rule = "a run is 4-8 calls of randomised entry points with seeded keys, each under its own ambient state, thread and call history, compared with an earlier call, with the same call in another process, and with other keys; non-trivial if an ambient source was perturbed"
    measure = "digest of (sequence of entry points, keys, ambient perturbations)"
    expected_probes = ("clock_jump", "entropy_reseeded", "environment_changed", "other_thread", "other_process", "key_changed", "fresh_library", "not_copies", "long_history")
    runs_per_block = 16
    blocks = {"quick": 32, "thorough": 192}
    list_fields = ("ops",)

    def gen_block(self, rng, tier):
        names = sorted(ENTRIES)
        rng.shuffle(names)
        cfg = []
        for e in names[:4]:
            w = rng.choice([3, 5, 8])
            layers = [rng.choice([2, w])] + [w] * rng.choice([2, 3]) + [rng.choice([1, 2, w])]
            cfg.append(dict(e=e, v=rng.randrange(4), layers=layers, typed=rng.random() < 0.5))
        k = rng.randrange(2**64)
        keys = [k, k ^ (rng.randrange(1, 2**32) << rng.choice([0, 32])), rng.choice([rng.randrange(4), rng.randrange(2**31)])]
        return dict(cfg=cfg, keys=keys, hashseed=rng.randrange(1, 2**31), order=rng.randrange(2**31))

    def gen_run(self, rng, b, tier):
        ops = []
        for _ in range(rng.choice([4, 6, 8])):
            ops.append(dict(c=rng.randrange(len(b["cfg"])), k=rng.randrange(len(b["keys"])), thread=rng.random() < 0.2, fresh=rng.random() < 0.1,
                            ambient=dict(seed=rng.randrange(2**31), clock=rng.choice([0.0, -1e9, 5e8, 12.5]), jumps=rng.random() < 0.5, env=rng.random() < 0.5, gc=rng.random() < 0.2)))
        if rng.random() < 0.06:
            # a long history of one call
            ops.insert(rng.randrange(len(ops) + 1), dict(ops[0], c=rng.randrange(len(b["cfg"])), thread=False, fresh=False, burst=rng.choice([20, 70, 140])))
        return dict(ops=ops)

    def shrink_more(self, plan):
        for i, o in enumerate(plan["ops"]):
            if o.get("burst"):
                for n in (0, o["burst"] // 2):
                    yield {**plan, "ops": [{**q, "burst": n} if j == i else q for j, q in enumerate(plan["ops"])]}

    def setup(self, block):
        L = _env.load_magpi()
        allops = [dict(c, key=k) for c in block["cfg"] for k in block["keys"]]
        rng_for(block["order"]).shuffle(allops)
        env = dict(os.environ, PYTHONHASHSEED=str(block["hashseed"]), TZ="Pacific/Chatham", SEED="99", MAGPI_SEED="7")
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = f"import sys; sys.path.insert(0, {root!r}); from sim import s_entropy; s_entropy.child_main()"
        p = subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")
        p.stdin.write(json.dumps(allops).encode())
        p.stdin.close()
        return dict(block=block, L=L, child=p, childops=allops, seen={}, other=None)

    def other(self, env):
        if env["other"] is None:
            out = env["child"].stdout.read().decode()
            env["child"].wait()
            line = [l for l in out.split("\n") if l.startswith("RESULT ")]
            if not line:
                raise RuntimeError("the second process gave no result")
            env["other"] = {(o["e"], o["v"], o["key"]): d for o, d in zip(env["childops"], json.loads(line[0][7:]))}
        return env["other"]

    def execute(self, env, plan, ctx: Ctx):
        b = env["block"]
        results = {}
        for op in plan["ops"]:
            c = dict(b["cfg"][op["c"]], key=b["keys"][op["k"]])
            what = f"{c['e']}[{c['v']}] key {c['key']}"
            L = env["L"]
            if op["fresh"]:
                L = _env.load_magpi()
                ctx.probe("fresh_library")
            box = []
            with Ambient(op["ambient"]) as amb:
                if op["thread"]:
                    def go():
                        try:
                            box.append(run_op(L, c))
                        except BaseException as e:  # noqa: BLE001
                            box.append(e)
                    t = threading.Thread(target=go)
                    t.start()
                    t.join()
                    ctx.fault("other_thread")
                    if isinstance(box[0], BaseException):
                        raise box[0]
                else:
                    box.append(run_op(L, c))
                py, npy = amb.undisturbed()
            res = box[0]
            for n in range(op.get("burst", 0)):
                if n == 0:
                    ctx.probe("long_history")
                again = run_op(L, c)
                diff = [p for p in set(res) | set(again) if p not in res or p not in again or not bits_equal(res[p], again[p])]
                expect(not diff, "not-repeatable", f"{what}: {sorted(diff)[:3]} differ after {n + 1} more calls")
            ctx.fault("entropy_reseeded")
            if op["ambient"]["jumps"]:
                ctx.fault("clock_jump")
            if op["ambient"]["env"]:
                ctx.fault("environment_changed")
            ctx.steps += 1
            ctx.choice(c["e"], c["v"], op["k"], op["thread"], op["ambient"]["seed"])
            expect(py, "generator-disturbed", f"{what}: the call changed the state of Python's global generator")
            expect(npy, "generator-disturbed", f"{what}: the call changed the state of NumPy's global generator")
            d = digest(res)
            kk = (c["e"], c["v"], c["key"])
            first = env["seen"].setdefault(kk, (d, res))
            if first[0] != d:
                diff = [p for p in res if p not in first[1] or not bits_equal(res[p], first[1][p])]
                raise Violation("not-repeatable", f"{what}: {diff[:3]} differ from an earlier call with the same key")
            od = self.other(env)[kk]
            expect(od == d, "process-dependent", f"{what}: another process got a different result ({od})")
            ctx.probe("other_process")
            results[kk] = res
            ctx.log(c["e"], d)
            self.not_copies(c, res, what, ctx)
            # other keys
            for (e, v, k), (d2, r2) in env["seen"].items():
                if (e, v) == kk[:2] and k != c["key"]:
                    self.sensitive(res, r2, f"{c['e']}[{c['v']}] keys {c['key']} and {k}", ctx, c)

    @staticmethod
    def random_leaves(res, c):
        """leaves that hold random numbers (not zero-initialised, not the fixed spline grid)"""
        return {p: v for p, v in res.items() if "grids" not in p and v.size >= 4 and len(np.unique(v)) > 1}

    def sensitive(self, a, b, what, ctx, c):
        ra, rb = self.random_leaves(a, c), self.random_leaves(b, c)
        if c["e"] == "spline_default":
            return
        expect(bool(ra), "no-randomness", f"{what}: nothing random in the result")
        same = [p for p in ra if p in rb and bits_equal(ra[p], rb[p])]
        if c["e"] in ("with", "without", "stream"):
            expect(len(same) < len(ra), "key-ignored", f"{what}: both keys give the same result")
        else:
            expect(not same, "key-ignored", f"{what}: both keys give the same {same[:3]}")
        ctx.probe("key_changed")

    def not_copies(self, c, res, what, ctx):
        if c["e"] in ("mlp", "mlp_module"):
            ks = {p: v for p, v in res.items() if "kernel" in p}
            expect(len(ks) == len(c["layers"]) - 1, "missing-weights", f"{what}: {len(ks)} weight matrices for layers {c['layers']}")
            items = sorted(ks.items())
            for i, (p, v) in enumerate(items):
                expect(np.unique(v).size > 1 or v.size == 1, "no-randomness", f"{what}: {p} is constant")
                for q, w in items[:i]:
                    m = [min(s, t) for s, t in zip(v.shape, w.shape)]
                    if m[0] * m[1] >= 2 and v.shape == w.shape:
                        expect(not np.allclose(v, w), "copies", f"{what}: {p} is a copy of {q}")
                if v.shape[0] > 1 and v.size >= 4:
                    expect(len({r.tobytes() for r in v}) == v.shape[0], "copies", f"{what}: rows of {p} are copies of each other")
                if v.shape[1] > 1 and v.shape[0] > 1:
                    expect(len({np.ascontiguousarray(r).tobytes() for r in v.T}) == v.shape[1], "copies", f"{what}: columns of {p} are copies of each other")
        elif c["e"] == "spline":
            v = [v for p, v in res.items() if "coefs" in p][0]
            expect(len({r.tobytes() for r in v}) == len(v), "copies", f"{what}: coefficients of different activations are copies")
        elif c["e"] == "rejection":
            u = res["['u']"]
            expect(len({r.tobytes() for r in u}) == len(u), "copies", f"{what}: samples are copies of each other")
        elif c["e"] == "stream":
            ep = {}
            for p, v in res.items():
                if "'i'" in p:
                    n = int(p.split("[")[0])
                    ep.setdefault(n // 3, []).append(v)
            es = [np.concatenate(x).tobytes() for _, x in sorted(ep.items())]
            expect(len(set(es)) == len(es), "copies", f"{what}: two epochs have the same order")
        elif c["e"] == "with":
            b = res["['i']"]
            expect(len({r.tobytes() for r in b}) == len(b), "copies", f"{what}: batches are copies of each other")
        ctx.probe("not_copies")
