"""C05: the progress callback sees every step exactly once, in order; a failing callback stops the run cleanly."""
from __future__ import annotations

import jax
import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, fault_of, Scenario, Violation, bits_equal, expect
from .s_resume import close, steps_agree
from .s_tr import TrHistory, leaves, same_step
from .tr_world import F32, Optimizer, Problem, Service, StepView, gen_faults, gen_problem, gen_x0, make_tree, precise, to_host, tree_dim


def agree(a, b):
    """The same step: bit for bit, or up to the last bits where the compiler computed it twice."""
    if same_step(a, b):
        return True
    la, lb = leaves(a), leaves(b)
    return len(la) == len(lb) and all(close(x, y, 1e-5, 1e-6) for x, y in zip(la, lb))


class Listener:
    """The user's callback: records, and raises when told to."""

    def __init__(self):
        self.reset(None, None)

    def reset(self, fail_at, ctx, exc=0):
        self.exc = exc
        self.got = []
        self.fail_at = fail_at
        self.failed = False
        self.ctx = ctx
        self.after = 0

    def __call__(self, step):
        if self.failed:
            self.after += 1
        self.got.append(StepView(*to_host((step.params, step.state))))
        if self.fail_at is not None and len(self.got) == self.fail_at:
            self.failed = True
            self.ctx.fault("callback_raise")
            raise fault_of(self.exc)


class C05(Scenario):
    id = "C05"
    components_real = TrHistory.components_real + ["jax.experimental.io_callback delivery"]
    components_stub = TrHistory.components_stub + ["the user's callback (records every delivery, raises on demand)"]
    rule = ("a run is a seeded sequence of init/step/warm/run operations with a recording callback that may raise at a chosen delivery, and evaluation faults; "
            "non-trivial if a callback or evaluation fault fired or a step was rejected")
    measure = "digest of (operation, number of deliveries, raised by whom, accepted flags)"
    runs_per_block = 24
    blocks = {"quick": 56, "thorough": 480}
    expected_probes = ("callback_raise", "eval_raise", "noop_silent", "run_complete", "run_aborted_by_callback", "run_aborted_by_objective", "step_notified", "rejected_notified", "rerun_after_failure", "long_run")

    def gen_block(self, rng, tier):
        cfg = TrHistory.gen_block(self, rng, tier)
        cfg.pop("exact", None)
        cfg["opts"]["maxiter"] = rng.choice([1, 2, 5, 12, 25])
        if cfg["opts"].get("unroll"):
            cfg["opts"]["maxiter"] = min(6, cfg["opts"]["maxiter"])
        elif rng.random() < 0.12:       # many short steps
            cfg["opts"].update(maxiter=rng.choice([110, 300]), init_tr_radius=0.04, max_tr_radius=rng.choice([0.04, 0.08]), min_tr_radius=1e-4)
            cfg["long"] = True
        if rng.random() < 0.1:
            cfg.pop("long", None)
            cfg["opts"].update(jit=False, unroll="auto", maxiter=2, maxiter_steihaug=2)
        return cfg

    def gen_run(self, rng, cfg, tier):
        n = tree_dim(cfg["tree"])
        prob = gen_problem(rng, n)
        nops = rng.choice([2, 4, 7]) if not cfg.get("long") else 2
        if cfg.get("long") and rng.random() < 0.7:
            prob["family"] = rng.choice(["linear", "sqrt"])
        if not cfg["opts"].get("jit", True):
            nops = 1
        ops = []
        for _ in range(nops):
            u = rng.random()
            op = {"op": "run" if u < 0.45 else ("warm" if u < 0.55 else "step"), "d": rng.randrange(2), "from": rng.choice(["step", "params"])}
            if op["op"] != "warm" and rng.random() < 0.3:
                op["fail_at"] = 1 if op["op"] == "step" else rng.randint(1, 8)
                op["exc"] = rng.randrange(13)
            if op["op"] == "run" and rng.random() < 0.25:
                op["abort"] = round(rng.choice([0.02, 0.1, 0.3]), 3)
            ops.append(op)
        return dict(seed=rng.randrange(2**31), problem=prob, x0=gen_x0(rng, prob), data=[[float(round(rng.uniform(-2, 2), 1)) for _ in range(2)] for _ in range(2)],
                    ops=ops, faults=gen_faults(rng, nops + 1, n, not cfg["opts"].get("approx_hvp"), raises=False))

    @precise
    def setup(self, cfg):
        magpi = _env.load_magpi()
        svc, lis = Service(), Listener()
        return dict(cfg=cfg, svc=svc, lis=lis, opt=Optimizer(magpi, svc, cfg, callback=lis))

    def call(self, env, op, cur, d, have):
        opt = env["opt"]
        kind = op["op"]
        if not have and kind in ("step", "warm"):
            kind = "init"
        try:
            if kind == "init":
                return kind, opt.init(cur.params, d), None
            if kind == "warm":
                return kind, opt.warm(cur, d), None
            if kind == "step":
                return kind, opt.update(cur, d), None
            return kind, opt.run(cur if have and op["from"] == "step" else cur.params, d), None
        except Injected as e:
            return kind, None, e
        finally:
            try:
                jax.effects_barrier()
            except Exception as e:  # noqa: BLE001
                if MARK not in str(e):
                    raise

    @precise
    def execute(self, env, plan, ctx: Ctx):
        cfg, svc, lis = env["cfg"], env["svc"], env["lis"]
        svc.begin(Problem(plan["problem"]), plan["faults"], plan["seed"], ctx)
        cur = StepView(make_tree(cfg["tree"], plan["x0"]), None)
        have = False
        ops = [{"op": "init", "d": 0}] + plan["ops"]
        for i, op in enumerate(ops):
            d = plan["data"][op["d"]]
            # clean execution first
            svc.start_op(i, cur.x)
            lis.reset(None, ctx)
            kind, new, exc = self.call(env, op, cur, d, have)
            ctx.steps += 1
            if exc is not None:
                raise Violation("unexpected-exception", f"operation {i} ({kind}) raised without any raising fault")
            got = lis.got
            self.check_clean(env, ctx, i, kind, op, cur, new, got, have)
            # the same operation with a failing callback
            if op.get("fail_at"):
                svc.start_op(i, cur.x)
                lis.reset(op["fail_at"], ctx, op.get("exc", 0))
                _, res, exc = self.call(env, op, cur, d, have)
                if lis.failed:
                    ctx.probe("run_aborted_by_callback")
                    expect(exc is not None, "callback-error-swallowed", f"operation {i} ({kind}): the callback raised at delivery {op['fail_at']} but the call returned normally")
                    expect(lis.after == 0 and len(lis.got) == op["fail_at"], "delivery-after-failure", f"operation {i} ({kind}): {lis.after} deliveries after the callback had raised")
                else:
                    expect(exc is None, "unexpected-exception", f"operation {i} ({kind}): raised although the callback did not")
                    expect(len(got) < op["fail_at"], "delivery-lost", f"operation {i} ({kind}): only {len(lis.got)} deliveries, {len(got)} before")
                self.prefix(i, kind, got, lis.got, "with a failing callback")
                svc.start_op(i, cur.x)
                lis.reset(None, ctx)
                _, again, exc = self.call(env, op, cur, d, have)
                expect(exc is None and same_step(again, new), "unusable-after-failure", f"operation {i} ({kind}): repeating the call after a callback failure gives another result")
                expect(len(lis.got) == len(got), "unusable-after-failure", f"operation {i} ({kind}): repeating the call after a callback failure delivers {len(lis.got)} steps, before {len(got)}")
                self.prefix(i, kind, got, lis.got, "after a callback failure")
                ctx.probe("rerun_after_failure")
                ctx.choice(i, "cbfail", op["fail_at"], len(got))
            # the same run aborted by the objective
            if op.get("abort"):
                fl = svc.faults
                svc.faults = fl + [{"what": "eval", "kind": "raise", "from": 0, "to": 10**9, "sel": "all", "p": op["abort"]}]
                svc.start_op(i, cur.x)
                lis.reset(None, ctx)
                _, res, exc = self.call(env, op, cur, d, have)
                svc.faults = fl
                if exc is not None:
                    ctx.probe("run_aborted_by_objective")
                    expect(len(lis.got) <= len(got), "delivery-extra", f"operation {i} ({kind}): more deliveries in an aborted run than in the complete one")
                self.prefix(i, kind, got, lis.got, "in an aborted run")
            if svc.errors:
                raise RuntimeError(str(svc.errors))
            cur, have = new, True

    def prefix(self, i, kind, a, b, when):
        for k, (x, y) in enumerate(zip(a, b)):
            if not same_step(x, y):
                raise Violation("delivery-differs", f"operation {i} ({kind}): delivery {k + 1} {when} differs: {steps_agree(x, y) or 'in the last bits'}")

    def check_clean(self, env, ctx, i, kind, op, cur, new, got, have):
        cfg = env["cfg"]
        o = cfg["opts"]
        w = f"operation {i} ({kind})"
        ctx.log(kind, len(got), new.x, new.iter)
        ctx.choice(i, kind, len(got), [bool(np.asarray(s.state.accepted)) for s in got])
        if kind in ("init", "warm"):
            expect(not got, "delivery-on-init", f"{w}: {len(got)} deliveries during initialisation")
            return
        rmin = F32(o["min_tr_radius"])
        if kind == "step":
            if F32(cur.r) <= rmin:
                expect(not got, "delivery-on-noop", f"{w}: {len(got)} deliveries for an update that does nothing")
                ctx.probe("noop_silent")
                return
            expect(len(got) == 1, "delivery-count", f"{w}: {len(got)} deliveries for one step")
            ctx.probe("step_notified" if bool(np.asarray(new.state.accepted)) else "rejected_notified")
            if not bool(np.asarray(new.state.accepted)):
                ctx.nontrivial = True
            expect(agree(got[0], new), "delivery-mismatch", lambda: f"{w}: the callback saw another step than was returned: {self.what(got[0], new)}")
            return
        base = cur.iter if have and op["from"] == "step" else 0
        expect([s.iter for s in got] == list(range(base + 1, base + 1 + len(got))), "delivery-order", lambda: f"{w}: iteration counts delivered {[s.iter for s in got]}, run started at {base}")
        expect(new.iter == base + len(got), "delivery-count", f"{w}: run took {new.iter - base} steps but {len(got)} were delivered")
        expect(len(got) <= o["maxiter"], "delivery-count", f"{w}: more deliveries than maxiter")
        if got:
            expect(agree(got[-1], new), "delivery-mismatch", lambda: f"{w}: last delivery differs from the run's result: {self.what(got[-1], new)}")
            prev = cur.x
            for k, s in enumerate(got):
                acc = bool(np.asarray(s.state.accepted))
                if not acc:
                    expect(bits_equal(s.x, prev), "delivery-mismatch", f"{w}: delivery {k + 1} reports a rejected step with other parameters than the step before")
                prev = s.x
                if k:
                    expect(F32(got[k - 1].r) > rmin, "delivery-on-noop", f"{w}: delivery {k + 1} although the radius had collapsed")
        else:
            start_r = F32(o["init_tr_radius"])
            expect(False if start_r > rmin else True, "delivery-count", f"{w}: no delivery in a run")
        ctx.probe("run_complete")
        if len(got) > 100:
            ctx.probe("long_run")

    @staticmethod
    def what(a, b):
        names = ["params"] + list(type(a.state)._fields)
        out = []
        for n, x, y in zip(names, (a.params, *a.state), (b.params, *b.state)):
            lx, ly = jax.tree.leaves(x), jax.tree.leaves(y)
            if len(lx) != len(ly) or not all(bits_equal(u, v) for u, v in zip(lx, ly)):
                out.append(f"{n}: {np.asarray(lx[0]).tolist()} vs {np.asarray(ly[0]).tolist()}" if lx and ly else n)
        return "; ".join(out)[:500]
