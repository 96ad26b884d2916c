"""C13: client threads over the whole API, interleaved at every call-back into user code by a seeded scheduler."""
from __future__ import annotations

import copy
import logging
import os
import random
import sys
import threading

import jax
import numpy as np

from . import catalog as C
from . import env as _env
from .core import MARK, Ctx, InjectedFault, Scenario, Violation, bits_equal, expect, fault_of, is_injected, rng_for

STALL = 25.0        # wall-clock seconds after which a released thread counts as blocked inside JAX


def wide(op):
    """Does this call run in JAX's double precision mode (a setting of the calling thread)?"""
    return bool(op.get("wide"))


NOT_TRACEABLE = (jax.errors.TracerArrayConversionError, jax.errors.TracerBoolConversionError, jax.errors.TracerIntegerConversionError, jax.errors.ConcretizationTypeError)


class Die(BaseException):
    pass


class Args:
    """Arguments handed to the library, with copies of their values.

    With a pool, NumPy arguments are passed in buffers that the client overwrites and uses again in its next call."""

    def __init__(self, pool=None, tag=""):
        self.items = []
        self.pool, self.tag = pool, tag
        self.reused = 0

    def buffer(self, a):
        if not isinstance(a, np.ndarray) or a.ndim == 0:
            return a
        k = (self.tag, a.shape, str(a.dtype), sum(1 for j in self.used if j[1:3] == (a.shape, str(a.dtype))))
        self.used.append(k)
        if k in self.pool:
            self.reused += 1
            self.pool[k][...] = a
        else:
            self.pool[k] = a.copy()
        return self.pool[k]

    used = None

    def __call__(self, v):
        if self.pool is not None:
            if self.used is None:
                self.used = []
            v = jax.tree.map(self.buffer, v) if not isinstance(v, np.ndarray) else self.buffer(v)
        leaves, td = jax.tree.flatten(v)
        if any(isinstance(l, jax.core.Tracer) for l in leaves):
            return v
        self.items.append((v, td, leaves, [np.array(C.leaves(l)[0], copy=True) for l in leaves]))
        return v

    def check(self, what):
        for v, td, given, snap in self.items:
            leaves, td2 = jax.tree.flatten(v)
            expect(td == td2, "argument-changed", f"{what}: the structure of an argument was {td} and is {td2} after the call")
            expect(all(a is b for a, b in zip(leaves, given)), "argument-changed", f"{what}: an element of a list or dict handed to the library was replaced")
            for a, b in zip(leaves, snap):
                a = C.leaves(a)[0]
                expect(bits_equal(a, b), "argument-changed", f"{what}: an argument was {b.tolist()} and is {a.tolist()} after the call")


def settings():
    """Process-wide settings as seen by the calling thread."""
    return dict({k: getattr(jax.config, k, None) for k in SETTINGS}, numpy_errors=tuple(sorted(np.geterr().items())), numpy_print=str(sorted(np.get_printoptions().items())),
                recursion=sys.getrecursionlimit(), environment=hash(tuple(sorted(os.environ.items()))), logging=logging.root.manager.disable,
                switch=sys.getswitchinterval(), generators=hash((random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2])))


SETTINGS = sorted(k for k in jax.config.values if k.startswith("jax_"))


class Client:
    def __init__(self, idx, ops, world):
        self.idx, self.ops, self.world = idx, ops, world
        self.go, self.parked = threading.Event(), threading.Event()
        self.done = False
        self.dead = False
        self.viol = None
        self.err = None
        self.count = 0
        self.raise_at = 0
        self.fired = False
        self.quiet = False
        self.buffers = {}
        self.thread = threading.Thread(target=self.main, daemon=True, name=f"client{idx}")

    # called in user code, in this client's thread
    def at(self, tag):
        if self.quiet:
            return
        self.count += 1
        self.park(tag)
        if self.raise_at and self.count == self.raise_at:
            self.fired = True
            raise fault_of(self.exc, f"{MARK} {self.idx}")

    def park(self, tag):
        self.tag = tag
        self.parked.set()
        self.go.wait()
        self.go.clear()
        if self.dead:
            raise Die()

    def main(self):
        C.set_client(self)
        try:
            self.park("start")
            for n, op in enumerate(self.ops):
                if n:
                    self.park("op")
                self.one(op)
        except Die:
            pass
        except Violation as v:
            self.viol = v
        except BaseException as e:  # noqa: BLE001
            self.err = e
        finally:
            C.set_client(None)
            self.done = True
            self.parked.set()

    def one(self, op):
        w = self.world
        e = C.ENTRIES[op["e"]]
        what = f"client {self.idx} {op['e']}[{op['v']},{op['x']}]" + (" on a shared object" if op["shared"] else "")
        self.count, self.raise_at, self.fired = 0, op["raise"], False
        self.exc = op.get("exc", 0)
        A = Args(self.buffers if op.get("reuse") else None)
        traced = op.get("traced") and not e.concrete
        if traced:
            what += " while being traced"
        if wide(op):
            what += " in double precision mode"
            w.ctx.probe("wide_calls")
        before, marks = settings(), C.marks()
        try:
            self.attempt(op, e, what, A, traced)
        finally:
            after = settings()
            changed = [f"{k}: {before[k]} -> {after[k]}" for k in before if before[k] != after[k]]
            if changed and not self.dead:
                raise Violation("settings-changed", f"{what}: process-wide settings changed: {changed[:3]}")
            bad = C.marked(marks)
            if bad and not self.dead:
                raise Violation("argument-changed", f"{what}: a user function was modified: {bad}")

    def attempt(self, op, e, what, A, traced):
        w = self.world
        try:
            with jax.enable_x64(wide(op)):
                if op["shared"] and e.shareable and not wide(op):
                    obj = w.shared(e, op["v"], self)
                else:
                    obj = e.make(w.L, op["v"])
                if traced:
                    got = [(g.shape, str(g.dtype)) for g in jax.tree.leaves(jax.eval_shape(lambda: e.use(w.L, obj, op["x"], A)))]
                else:
                    got = C.leaves(e.use(w.L, obj, op["x"], A))
        except InjectedFault:
            w.ctx.fault("user_function_raised")
            A.check(what)
            w.events.append((self.idx, op["e"], "raised"))
            return
        except (Violation, Die):
            raise
        except Exception as ex:  # noqa: BLE001
            if traced and isinstance(ex, NOT_TRACEABLE):
                w.ctx.probe("not_traceable")
                return
            if is_injected(ex):
                w.ctx.fault("user_function_raised")
                A.check(what)
                return
            raise Violation("unexpected-exception", f"{what}: {type(ex).__name__}: {str(ex)[:300]}") from ex
        expect(not self.fired, "exception-lost", f"{what}: a user function raised, but the call returned normally")
        A.check(what)
        ref = w.refs[(op["e"], op["v"], op["x"], wide(op))]
        if A.reused:
            w.ctx.probe("buffer_reused", A.reused)
        if traced:
            expect([g[0] for g in got] == [np.shape(r) for r in ref if r is not None], "result-differs", f"{what}: results {got}, when called alone {[(r.shape, str(r.dtype)) for r in ref if r is not None]}")
            w.ctx.probe("traced_calls")
            w.events.append((self.idx, op["e"], "traced"))
            return
        self.compare(got, ref, what)
        w.ctx.probe("calls_checked")
        if op["shared"] and e.shareable:
            w.ctx.probe("shared_object_calls")
        w.events.append((self.idx, op["e"], "ok"))
        w.ctx.log(self.idx, op["e"], *[g if g is not None else "none" for g in got])

    @staticmethod
    def compare(got, ref, what):
        expect(len(got) == len(ref), "result-differs", f"{what}: {len(got)} result leaves, {len(ref)} when called alone")
        for a, b in zip(got, ref):
            if a is None or b is None:
                expect(a is None and b is None, "result-differs", f"{what}: {a} instead of {b}")
                continue
            ok = bits_equal(a, b) or (a.shape == b.shape and a.dtype == b.dtype and a.dtype.kind == "f" and np.allclose(a, b, **(dict(rtol=2e-5, atol=1e-6) if a.dtype.itemsize < 8 else dict(rtol=1e-9, atol=1e-10)), equal_nan=True))
            expect(ok, "result-differs", lambda: f"{what}: {str(a.tolist())[:150]} instead of {str(b.tolist())[:150]} when called alone on a fresh library")


class World:
    def __init__(self):
        self.L = _env.load_magpi()
        self.objs = {}
        self.refs = {}

    def shared(self, e, v, client):
        k = (e.name, v)
        if k not in self.objs:
            client.quiet = True
            try:
                self.objs[k] = e.make(self.L, v)
            finally:
                client.quiet = False
        return self.objs[k]

    def reference(self, op):
        k = (op["e"], op["v"], op["x"], wide(op))
        if k not in self.refs:
            L = _env.load_magpi()
            e = C.ENTRIES[op["e"]]
            try:
                with jax.enable_x64(wide(op)):
                    self.refs[k] = C.leaves(e.use(L, e.make(L, op["v"]), op["x"], lambda v: v))
            except Exception as ex:
                if wide(op):        # single precision inputs under double precision mode: refused by some functions
                    self.refs[k] = None
                else:
                    raise Violation("unexpected-exception", f"{k} alone on a fresh library: {type(ex).__name__}: {str(ex)[:300]}") from ex
        if self.refs[k] is None:
            op["wide"] = False
            self.reference(op)


class C13(Scenario):
    id = "C13"
    components_real = ["all modules of magpi (catalogue of client programs over every public operator, geometry, model, solver and sampler)", "JAX tracing, jit caches, XLA CPU", "operating system threads, one running at a time"]
    components_stub = ["user functions (fields, integrands, shapes, densities, dynamics, objectives, activations) that park their thread at every call", "thread scheduler"]
    rule = "a run is 1-4 client threads with 1-5 library calls each over one loaded copy of the library, released one at a time by the seeded scheduler; non-trivial if at least one context switch inside a call or one raised user function occurred"
    measure = "digest of the sequence (thread released, place where it parked next)"
    expected_probes = ("switch_inside_call", "user_function_raised", "shared_object_calls", "calls_checked", "single_client", "shared_concurrently", "buffer_reused", "traced_calls", "wide_calls")
    runs_per_block = 14
    blocks = {"quick": 40, "thorough": 400}
    list_fields = ("clients",)
    hang_is_violation = False

    def gen_block(self, rng, tier):
        light = [n for n, e in C.ENTRIES.items() if not e.heavy]
        heavy = [n for n, e in C.ENTRIES.items() if e.heavy]
        rng.shuffle(light)
        rng.shuffle(heavy)
        return dict(entries=light[:7] + heavy[:2])

    def gen_run(self, rng, b, tier):
        nc = rng.choice([1, 2, 2, 3, 3, 4])
        if rng.random() < 0.2:
            # many calls on one shared object, arguments in buffers used again
            e = rng.choice([n for n in b["entries"] if not C.ENTRIES[n].heavy])
            v = rng.randrange(3)
            clients = [[dict(e=e, v=v, x=rng.randrange(3), shared=rng.random() < 0.9, **{"raise": rng.choice([0, 0, 0, 0, 0, 1, 2])}, exc=rng.randrange(13), reuse=rng.random() < 0.9, traced=rng.random() < 0.15, wide=rng.random() < 0.12) for _ in range(rng.choice([5, 8]))] for _ in range(rng.choice([1, 2]))]
            return dict(clients=clients, policy=rng.choice(["random", "robin", "sequential"]), sched=rng.randrange(2**31))
        focus = rng.random() < 0.4      # the clients use the same few programs
        pool = [rng.choice(b["entries"]) for _ in range(2)] if focus else b["entries"]
        clients = []
        for _ in range(nc):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5]) if nc < 3 else rng.choice([1, 2, 3])):
                e = rng.choice(pool)
                ops.append(dict(e=e, v=rng.randrange(3), x=rng.randrange(3), shared=rng.random() < 0.6, **{"raise": rng.choice([0, 0, 0, 1, 2, 3])}, exc=rng.randrange(13), reuse=rng.random() < 0.6, traced=rng.random() < 0.15, wide=rng.random() < 0.12))
            clients.append(ops)
        return dict(clients=clients, policy=rng.choice(["random", "random", "robin", "sticky", "pct", "sequential"]), sched=rng.randrange(2**31))

    def shrink_more(self, plan):
        for i, ops in enumerate(plan["clients"]):
            for j in range(len(ops)):
                c = [list(o) for o in plan["clients"]]
                del c[i][j]
                yield {**plan, "clients": [o for o in c if o]}
        for i, ops in enumerate(plan["clients"]):
            for j, o in enumerate(ops):
                if o["raise"]:
                    c = copy.deepcopy(plan["clients"])
                    c[i][j]["raise"] = 0
                    yield {**plan, "clients": c}
        if plan["policy"] != "sequential":
            yield {**plan, "policy": "sequential"}

    def setup(self, block):
        return World()

    def execute(self, w, plan, ctx: Ctx):
        for ops in plan["clients"]:
            for op in ops:
                w.reference(op)
        w.ctx = ctx
        w.events = []
        cl = [Client(i, ops, w) for i, ops in enumerate(plan["clients"])]
        rng = rng_for(plan["sched"], "sched")
        if len(cl) == 1:
            ctx.probe("single_client")
        prio = list(range(len(cl)))
        rng.shuffle(prio)
        for c in cl:
            c.thread.start()
            c.parked.wait()
        last = None
        step = 0
        blocked = set()
        inside = {}
        try:
            while True:
                ready = [c for c in cl if not c.done and c.idx not in blocked]
                if not ready:
                    if blocked:
                        w_ = [c for c in cl if c.idx in blocked]
                        if any(c.parked.wait(STALL) for c in w_):
                            blocked -= {c.idx for c in w_ if c.parked.is_set()}
                            continue
                        raise RuntimeError(f"threads {sorted(blocked)} are blocked forever")
                    break
                c = self.pick(plan["policy"], ready, last, prio, rng, step)
                step += 1
                if last is not None and c is not last and not last.done and last.tag not in ("start", "op"):
                    ctx.fault("switch_inside_call")
                    if c.tag not in ("start", "op"):
                        ctx.probe("both_inside_calls")
                c.parked.clear()
                c.go.set()
                if not c.parked.wait(STALL):
                    blocked.add(c.idx)
                    ctx.probe("blocked_inside_jax")
                ctx.steps += 1
                ctx.choice(c.idx, "done" if c.done else c.tag)
                ctx.log("sched", c.idx, "done" if c.done else c.tag)
                blocked -= {i for i in list(blocked) if cl[i].parked.is_set()}
                if c.viol is not None:
                    raise c.viol
                if c.err is not None:
                    raise c.err
                last = c
        finally:
            for c in cl:
                c.dead = True
                c.go.set()
            for c in cl:
                c.thread.join(60)
        used = [{(o["e"], o["v"]) for o in ops if o["shared"] and C.ENTRIES[o["e"]].shareable} for ops in plan["clients"]]
        if any(used[i] & used[j] for i in range(len(used)) for j in range(i)):
            ctx.probe("shared_concurrently")
        ctx.probe("switches", step)

    @staticmethod
    def pick(policy, ready, last, prio, rng, step):
        if len(ready) == 1:
            return ready[0]
        if policy == "sequential":
            return last if last in ready else ready[0]
        if policy == "robin":
            i = (last.idx if last else -1)
            return min(ready, key=lambda c: (c.idx - i - 1) % 64)
        if policy == "sticky":
            return last if last in ready and rng.random() < 0.7 else rng.choice(ready)
        if policy == "pct":
            if rng.random() < 0.12:
                rng.shuffle(prio)
            return max(ready, key=lambda c: prio[c.idx])
        return rng.choice(ready)
