"""C04: an optimisation can be interrupted and resumed at any step without trace."""
from __future__ import annotations

import math
import pickle

import jax
import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, InjectedFault, Scenario, Violation, bits_equal, expect, lib, prf
from .s_tr import TrHistory, leaves, same_step
from .tr_world import (EPS32, F32, Optimizer, Problem, Service, StepView, flat_tree, gen_cfg, gen_faults, gen_problem, gen_x0,
                       make_tree, precise, to_host, tree_dim)


def rehydrate(magpi, obj):
    """Rebuild saved state with the classes of another copy of the library (as a new process would)."""
    if isinstance(obj, tuple) and hasattr(obj, "_fields"):
        cls = getattr(magpi.tr, type(obj).__name__, type(obj))
        return cls(*[rehydrate(magpi, v) for v in obj])
    if isinstance(obj, dict):
        return {k: rehydrate(magpi, v) for k, v in obj.items()}
    if isinstance(obj, (tuple, list)):
        return type(obj)(rehydrate(magpi, v) for v in obj)
    return obj


def save(step):
    """What survives a crash: bytes."""
    def enc(o):
        if isinstance(o, tuple) and hasattr(o, "_fields"):
            return ("nt", type(o).__name__, [enc(v) for v in o])
        if isinstance(o, dict):
            return ("d", [(k, enc(v)) for k, v in o.items()])
        if isinstance(o, (tuple, list)):
            return ("t", type(o).__name__, [enc(v) for v in o])
        if o is None:
            return ("none",)
        a = np.asarray(o)
        return ("a", str(a.dtype), a.shape, a.tobytes())
    return pickle.dumps((enc(step.params), enc(step.state)))


def load(magpi, blob):
    def dec(o):
        k = o[0]
        if k == "nt":
            return getattr(magpi.tr, o[1])(*[dec(v) for v in o[2]])
        if k == "d":
            return {a: dec(b) for a, b in o[1]}
        if k == "t":
            v = [dec(x) for x in o[2]]
            return tuple(v) if o[1] == "tuple" else v
        if k == "none":
            return None
        return np.frombuffer(o[3], o[1]).reshape(o[2]).copy()
    p, s = pickle.loads(blob)
    return StepView(dec(p), dec(s))


class Recorder:
    def __init__(self):
        self.steps = []

    def __call__(self, step):
        self.steps.append(StepView(*to_host((step.params, step.state))))


def close(a, b, rtol=2e-3, atol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        fin = np.isfinite(a) & np.isfinite(b)
        same = (np.isnan(a) & np.isnan(b)) | (a == b)
        scale = max(1e-30, float(np.max(np.abs(np.where(fin, a, 0)), initial=0)))
        return bool(np.all(same | (fin & (np.abs(a - b) <= rtol * scale + atol))))


def steps_agree(a: StepView, b: StepView):
    """None if they agree up to rounding, else what differs."""
    sa, sb = a.state, b.state
    if bool(np.asarray(sa.accepted)) != bool(np.asarray(sb.accepted)):
        return f"accepted {bool(np.asarray(sa.accepted))} vs {bool(np.asarray(sb.accepted))}"
    if a.iter != b.iter:
        return f"iter_num {a.iter} vs {b.iter}"
    if not close(a.x, b.x):
        return f"params {a.x.tolist()} vs {b.x.tolist()}"
    if not close(sa.tr_radius, sb.tr_radius):
        return f"radius {a.r} vs {b.r}"
    if not close(sa.value, sb.value, 1e-3, 1e-5):
        return f"value {sa.value} vs {sb.value}"
    if not close(flat_tree(sa.grad), flat_tree(sb.grad), 5e-3, 1e-4):
        return f"grad {flat_tree(sa.grad).tolist()} vs {flat_tree(sb.grad).tolist()}"
    return None


class C04(Scenario):
    id = "C04"
    components_real = TrHistory.components_real
    components_stub = TrHistory.components_stub + ["process boundary (steps are saved as bytes and restored into a second copy of the library)"]
    rule = ("a run executes one seeded optimisation uninterrupted, then again with crashes/restores into another solver object and another copy of the library, "
            "foreign optimisations in between and aborted calls, then as whole runs in several execution modes; non-trivial if something interrupted it")
    measure = "digest of (operation, disturbance kinds, accepted, radius movement) sequences"
    runs_per_block = 10
    blocks = {"quick": 56, "thorough": 400}
    expected_probes = ("crash_restore", "foreign_work", "aborted_call", "run_vs_steps", "mode_checked", "warm_checked", "warm_collapsed", "run_collapsed", "run_converged", "run_maxiter", "many_iterations")
    list_fields = ("disturb", "ops", "faults")

    def gen_block(self, rng, tier):
        cfg = TrHistory.gen_block(self, rng, tier)
        cfg.pop("exact", None)
        cfg["opts"]["maxiter"] = rng.choice([1, 3, 8, 15, 25])
        cfg["mode"] = rng.choice(["unroll", "unroll", "nojit", "nojit", "while", "none"])
        if rng.random() < 0.25:
            cfg["opts"]["damping_factor"] = rng.choice([0.1, 1.0, 5.0])
        if cfg["opts"].get("unroll"):
            cfg["opts"]["maxiter"] = min(8, cfg["opts"]["maxiter"])
        elif rng.random() < 0.07:       # iteration counts in the hundreds
            cfg["opts"].update(maxiter=rng.choice([140, 300]), init_tr_radius=0.04, max_tr_radius=rng.choice([0.04, 0.08]), min_tr_radius=1e-4)
            cfg.update(mode="none", long=True)
        return cfg

    def gen_run(self, rng, cfg, tier):
        n = tree_dim(cfg["tree"])
        prob = gen_problem(rng, n)
        other = gen_problem(rng, n)
        nops = rng.choice([3, 6, 10]) if tier == "quick" else rng.choice([4, 10, 20])
        if cfg.get("long"):
            nops = 2
            prob["family"] = rng.choice(["linear", "linear", "sqrt"])
        nd = rng.choice([1, 3])
        ops = []
        for i in range(nops):
            u = rng.random()
            d = rng.randrange(nd)
            ops.append({"op": "warm" if u < 0.1 else "step", "d": d})
        faults = gen_faults(rng, nops, n, not cfg["opts"].get("approx_hvp"), raises=False)
        disturb = []
        for _ in range(rng.randint(1, 5)):
            disturb.append({"at": rng.randrange(nops), "kind": rng.choice(["crash", "crash", "other", "other", "abort", "abort"]), "k": rng.randint(1, 4), "u": round(rng.random(), 3)})
        return dict(seed=rng.randrange(2**31), problem=prob, other=other, x0=gen_x0(rng, prob), y0=gen_x0(rng, other),
                    data=[[float(round(rng.uniform(-2, 2), 1)) for _ in range(2)] for _ in range(nd)],
                    ops=ops, faults=faults, disturb=disturb, runs=rng.random() < 0.7)

    @precise
    def setup(self, cfg):
        svc = Service()
        ma = _env.load_magpi()
        rec = Recorder()
        a = Optimizer(ma, svc, cfg)
        acb = Optimizer(ma, svc, cfg, callback=rec)
        mb = _env.load_magpi()
        b = Optimizer(mb, svc, cfg)
        env = dict(cfg=cfg, svc=svc, ma=ma, mb=mb, a=a, b=b, acb=acb, rec=rec, mode=None)
        m = cfg.get("mode", "none")
        if m != "none":
            o = dict(cfg["opts"])
            if m == "unroll":
                o.update(unroll=True)
                o["maxiter_steihaug"] = o.get("maxiter_steihaug") or 10 * tree_dim(cfg["tree"])
            elif m == "nojit":
                o.update(jit=False, unroll="auto")
                o["maxiter"] = min(o["maxiter"], 8)
            else:
                o.update(unroll=False)
            cm = {**cfg, "opts": o}
            mrec = Recorder()
            env["mode"] = (Optimizer(mb, svc, cm), Optimizer(mb, svc, cm, callback=mrec), mrec, cm)
        return env

    def do(self, opt, kind, cur, d):
        if kind == "init":
            return opt.init(cur.params, d)
        if kind == "warm":
            return opt.warm(cur, d)
        return opt.update(cur, d)

    @precise
    def execute(self, env, plan, ctx: Ctx):
        cfg, svc = env["cfg"], env["svc"]
        prob, other = Problem(plan["problem"]), Problem(plan["other"])
        svc.begin(prob, plan["faults"], plan["seed"], ctx)
        ops = [{"op": "init", "d": plan["ops"][0]["d"] if plan["ops"] else 0}] + plan["ops"]
        # ---- uninterrupted
        ref = []
        cur = StepView(make_tree(cfg["tree"], plan["x0"]), None)
        for i, op in enumerate(ops):
            svc.start_op(i, cur.x)
            new = self.do(env["a"], op["op"], cur, plan["data"][op["d"]])
            ctx.steps += 1
            if op["op"] == "warm":
                ctx.probe("warm_checked")
                coll = F32(cur.r) <= F32(cfg["opts"]["min_tr_radius"])
                if coll:
                    ctx.probe("warm_collapsed")
                expect(bits_equal(new.x, cur.x), "warm-params", "a warm restart changed the parameters")
                expect(new.iter == cur.iter, "warm-iter", f"a warm restart changed the iteration count from {cur.iter} to {new.iter}")
                want = F32(cfg["opts"]["init_tr_radius"]) if coll else F32(cur.r)
                expect(F32(new.r) == want, "warm-radius", f"warm restart from radius {cur.r} has radius {new.r}, expected {want}")
            ref.append(new)
            ctx.log(i, op["op"], new.x, float(np.asarray(new.state.value)), new.r, new.iter)
            ctx.choice(op["op"], bool(np.asarray(new.state.accepted)), new.r)
            cur = new
        # ---- the same, interrupted
        cur = StepView(make_tree(cfg["tree"], plan["x0"]), None)
        opts = {0: (env["a"], env["ma"]), 1: (env["b"], env["mb"])}
        which = 0
        foreign = {0: None, 1: None}
        for i, op in enumerate(ops):
            for dz in plan["disturb"]:
                if dz["at"] != i:
                    continue
                ctx.fault("dist_" + dz["kind"])
                ctx.choice("dist", i, dz["kind"], dz["k"])
                if dz["kind"] == "crash" and cur.state is not None:
                    blob = save(cur)
                    which = 1 - which
                    cur = load(opts[which][1], blob)
                    ctx.probe("crash_restore")
                elif dz["kind"] == "other":
                    svc.problem, saved = other, svc.problem
                    fl, svc.faults = svc.faults, []
                    f = foreign[which] or StepView(make_tree(cfg["tree"], plan["y0"]), None)
                    for j in range(dz["k"]):
                        svc.start_op(1000 + i * 10 + j, f.x)
                        f = self.do(opts[which][0], "init" if f.state is None else "step", f, plan["data"][-1])
                        ctx.steps += 1
                    foreign[which] = f
                    svc.problem, svc.faults = saved, fl
                    ctx.probe("foreign_work")
                elif dz["kind"] == "abort":
                    fl = svc.faults
                    svc.faults = [{"what": "eval", "kind": "raise", "from": 0, "to": 10**9, "sel": "all", "p": 0.3 + 0.7 * dz["u"]}]
                    svc.start_op(2000 + i, cur.x)
                    try:
                        self.do(opts[which][0], op["op"] if cur.state is not None else "init", cur, plan["data"][op["d"]])
                    except Injected:
                        ctx.probe("aborted_call")
                    svc.faults = fl
            if svc.errors:
                raise RuntimeError(str(svc.errors))
            svc.start_op(i, cur.x)
            new = self.do(opts[which][0], op["op"], cur, plan["data"][op["d"]])
            ctx.steps += 1
            if not same_step(new, ref[i]):
                diff = steps_agree(ref[i], new) or "only in the last bits or diagnostics"
                raise Violation("resume-diverged", f"operation {i} ({op['op']}) of the interrupted optimisation differs from the uninterrupted one: {diff}")
            cur = new
        if plan.get("runs"):
            self.whole_runs(env, plan, ctx, prob)

    # ---- whole runs against single steps, across execution modes
    def whole_runs(self, env, plan, ctx, prob):
        cfg, svc = env["cfg"], env["svc"]
        o = cfg["opts"]
        region = [f for f in plan["faults"] if "region" in f]
        svc.begin(prob, region, plan["seed"], ctx)
        d = plan["data"][0]
        start = StepView(make_tree(cfg["tree"], plan["x0"]), None)
        rec = env["rec"]
        rec.steps.clear()
        svc.start_op(5000, start.x)
        res = env["acb"].run(start.params, d)
        jax.effects_barrier()
        stream = list(rec.steps)
        self.check_stream(env, ctx, "run", env["a"], o, start, None, stream, res, d)
        svc.start_op(5001, start.x)
        res0 = env["a"].run(start.params, d)
        diff = steps_agree(res, res0)
        if diff and not self.fragile(env, stream, o):
            raise Violation("run-callback-changed", f"the run without a callback ends elsewhere: {diff}")
        ctx.probe("run_vs_steps")
        # continue from the result
        rec.steps.clear()
        svc.start_op(5002, res.x)
        d2 = plan["data"][-1]
        res2 = env["acb"].run(res, d2)
        jax.effects_barrier()
        self.check_stream(env, ctx, "warm run", env["a"], o, res, res, list(rec.steps), res2, d2)
        if env["mode"]:
            om, omcb, mrec, cm = env["mode"]
            k = 0
            for s in stream[:4]:
                svc.start_op(6000 + k, s.x)
                k += 1
                x = om.update(StepView(s.params, rehydrate(env["mb"], s.state)), d)
                y = env["a"].update(s, d)
                ctx.steps += 2
                diff = steps_agree(x, y)
                if diff and not self.borderline(env, s, x, y, d, o):
                    raise Violation("mode-diverged", f"execution mode {cfg['mode']} gives another step than compiled: {diff}")
                ctx.probe("mode_checked")
            mrec.steps.clear()
            svc.start_op(6100, start.x)
            resm = omcb.run(start.params, d)
            jax.effects_barrier()
            self.check_stream(env, ctx, f"run in mode {cfg['mode']}", env["a"], cm["opts"], start, None, list(mrec.steps), resm, d)

    def check_stream(self, env, ctx, what, stepper, o, start, prev, stream, res, d):
        """Every notified step must be the update of the one before; the run must stop exactly when it may."""
        svc, cfg = env["svc"], env["cfg"]
        maxiter, tol = o["maxiter"], F32(o["tol"])
        svc.start_op(5100, start.x)
        cur = stepper.init(start.params, d) if prev is None else stepper.warm(StepView(prev.params, rehydrate(env["ma"], prev.state)), d)
        if prev is not None:
            expect(bits_equal(cur.x, prev.x) and cur.iter == prev.iter, "warm-params", f"{what}: warm restart changed parameters or iteration count")
        base = cur.iter
        n = 0
        for s in stream:
            expect(n < maxiter, "run-too-long", f"{what}: more than maxiter={maxiter} steps")
            if n:
                expect(bool(np.asarray(cur.state.error) > tol), "run-not-stopped", f"{what}: continued after step {n} although its error {cur.state.error} is within tolerance")
            svc.start_op(5200 + n, cur.x)
            y = stepper.update(StepView(cur.params, rehydrate(env["ma"], cur.state)), d)
            ctx.steps += 1
            diff = steps_agree(y, s)
            if diff and not self.borderline(env, cur, y, s, d, o):
                raise Violation("run-step-diverged", f"{what}: step {n + 1} of the run is not the update of the step before it: {diff}")
            expect(s.iter == base + n + 1, "run-iter", f"{what}: step {n + 1} has iteration count {s.iter}, started at {base}")
            cur = s
            n += 1
        collapsed = F32(cur.r) <= F32(o["min_tr_radius"])
        if n == 0:
            expect(collapsed, "run-no-step", f"{what}: took no step although the radius {cur.r} is not collapsed")
        else:
            expect(steps_agree(cur, res) is None, "run-result", lambda: f"{what}: result differs from its last step: {steps_agree(cur, res)}")
            if not collapsed and n < maxiter:
                expect(not bool(np.asarray(cur.state.error) > tol), "run-stopped-early", f"{what}: stopped after {n} steps with error {cur.state.error} > tol {tol}, radius {cur.r}")
        if cur.iter > 256:
            ctx.probe("many_iterations")
        ctx.probe("run_collapsed" if collapsed else ("run_maxiter" if n == maxiter else "run_converged"))
        ctx.choice(what, n, collapsed)
        ctx.log(what, n, res.iter)

    def fragile(self, env, stream, o):
        """Could rounding have changed a decision somewhere along this run?"""
        for s in stream:
            rho = float(np.asarray(s.state.rho))
            if not math.isfinite(rho) or any(abs(rho - t) < 2e-2 for t in (o["rho_accept"], o["rho_decrease"], o["rho_increase"])):
                return True
            e = float(np.asarray(s.state.error))
            if not abs(e - o["tol"]) > 2e-2 * o["tol"]:
                return True
            sub = s.state.subproblem_result
            nr, ep = float(np.asarray(sub.norm_r)), float(np.asarray(sub.eps))
            if not abs(nr - ep) > 2e-2 * ep:
                return True
        return len(stream) > 6

    def borderline(self, env, cur, y, s, d, o):
        """The disagreement of two steps is explained by rounding if a slightly perturbed start gives the other step."""
        for v in (y, s):
            rho = float(np.asarray(v.state.rho))
            if any(abs(rho - t) <= 1e-3 * max(1, abs(t)) for t in (o["rho_accept"], o["rho_decrease"], o["rho_increase"])):
                return True
            f = abs(float(np.asarray(cur.state.value)))
            p = flat_tree(v.state.subproblem_result.p).astype(float)
            g = flat_tree(cur.state.grad).astype(float)
            pred = abs(float(g @ p))
            if not pred > 200 * EPS32 * max(f, 1e-30):
                return True     # the predicted reduction is rounding noise
            sub = v.state.subproblem_result
            nr, ep = float(np.asarray(sub.norm_r)), float(np.asarray(sub.eps))
            if not abs(nr - ep) > 5e-2 * ep:
                return True
            cv = float(np.asarray(sub.curvature))
            if not abs(cv) > 1e-4 * float(g @ g):
                return True
        st = rehydrate(env["ma"], cur.state)
        for f in (1 + 3e-6, 1 - 3e-6, 1 + 1e-4, 1 - 1e-4):
            st2 = st._replace(tr_radius=np.asarray(F32(cur.r * f)))
            env["svc"].start_op(7000, cur.x)
            z = env["a"].update(StepView(cur.params, st2), d)
            if close(z.x, s.x) and close(z.x, y.x):
                return False
            if close(z.x, s.x):
                return True
        return False
