"""C06: once evaluation failures stop (or only occur where the objective is larger than at the start), the optimizer converges."""
from __future__ import annotations

import numpy as np

from . import env as _env
from .core import Ctx, Injected, Scenario, Violation, bits_equal, expect
from .s_tr import TrHistory
from .tr_world import F32, Optimizer, Problem, Service, StepView, gen_cfg, gen_problem, make_tree, precise, tree_dim

BUDGET = 150        # further steps allowed after the last failure
RESTARTS = 12


class C06(Scenario):
    id = "C06"
    components_real = TrHistory.components_real
    components_stub = TrHistory.components_stub + ["watchdog of the caller: warm-restarts a collapsed optimizer"]
    rule = ("a run is a convex problem, a start point, a phase of operations under evaluation faults, and a healed phase; non-trivial if a fault fired; "
            "progress bound: gradient tolerance within %d steps and %d warm restarts after the last fault" % (BUDGET, RESTARTS))
    measure = "digest of (operation, raised/accepted/radius movement) over the fault phase plus number of healed steps"
    runs_per_block = 30
    blocks = {"quick": 72, "thorough": 600}
    expected_probes = ("healed_converged", "collapsed_then_restarted", "call_raised", "nan_region_entered", "undefined_region_entered", "healed_by_run", "poisoned_gradient", "poisoned_curvature")
    assumptions = ["convex families: quadratic (condition <= 10), quartic, log-barrier; gradient tolerances 1e-3 and 1e-2; float32",
                   "undefined regions lie outside the sublevel set of the start point"]

    def gen_block(self, rng, tier):
        cfg = gen_cfg(rng)
        o = cfg["opts"]
        o["tol"] = rng.choice([1e-2, 1e-3])
        o["maxiter"] = rng.choice([10, 40])
        o["init_tr_radius"] = rng.choice([0.1, 1.0, 2.0, 4.0, 8.0])
        o["max_tr_radius"] = rng.choice([2.0, 8.0])
        if o.get("unroll"):
            o["maxiter"] = 6
        if o["init_tr_radius"] > o["max_tr_radius"]:
            o["init_tr_radius"] = o["max_tr_radius"]
        o["min_tr_radius"] = rng.choice([1e-4, 1e-2])
        if o["init_tr_radius"] <= 0.1:
            o["min_tr_radius"] = 1e-4
        if o.get("damping_factor"):
            o["damping_factor"] = 0.1
        o["rho_accept"] = min(o["rho_accept"], o["rho_decrease"])
        if rng.random() < 0.1:
            o["maxiter_steihaug"] = None
        return cfg

    def gen_run(self, rng, cfg, tier):
        n = tree_dim(cfg["tree"])
        prob = gen_problem(rng, n, convex=True)
        prob["scale"] = rng.choice([1.0, 1.0, 3.0, 0.3])
        if rng.random() < 0.3:
            prob["family"] = "sqrt"     # Newton steps overshoot
            prob["offset"] = -prob["scale"]
        if prob["family"] == "barrier":
            x0 = [round(c + rng.choice([-0.85, 0.5, 1.5, 2.5, 4.0]), 3) for c in prob["c"]]
        else:
            s = rng.choice([0.5, 1.5, 3.0]) if prob["family"] != "sqrt" else 3.0
            x0 = [round(c + rng.uniform(-s, s), 3) for c in prob["c"]]
        nops = rng.choice([0, 1, 2, 4, 8, 14])
        if prob["family"] in ("barrier", "sqrt") and rng.random() < 0.6:
            nops = 0
        nd = rng.choice([1, 2])
        datas = [[0.0, 0.0]] + [[float(round(rng.uniform(-1, 1), 1)) for _ in range(2)] for _ in range(nd - 1)]
        ops = []
        for _ in range(nops):
            u = rng.random()
            ops.append({"op": "run" if u < 0.12 else ("warm" if u < 0.2 else ("init" if u < 0.25 else "step")), "d": rng.randrange(nd) if prob["family"] != "barrier" else 0})
        faults = []
        exact = not cfg["opts"].get("approx_hvp")
        for _ in range(rng.randint(1, 3) if nops else 0):
            a = rng.randrange(nops + 1)
            f = {"what": "eval", "kind": rng.choice(["value_nan", "all_nan", "value_inf", "grad_nan", "grad_nan1", "grad_inf", "raise"]), "from": a, "to": a + rng.choice([0, 1, 3, 8]),
                 "sel": rng.choice(["other", "old", "all"]), "p": rng.choice([1.0, 1.0, 0.5, 0.2])}
            if exact and rng.random() < 0.35:
                f.update(what="hvp", kind=rng.choice(["nan", "inf", "raise", "noise", "neg"]), sel="all")
            faults.append(f)
        if prob["family"] in ("quad", "sqrt") and rng.random() < 0.6:
            v = [rng.choice([-1, 0, 1]) for _ in range(n)]
            if prob["family"] == "sqrt":
                z0 = np.asarray(x0) - np.asarray(prob["c"])
                v = [round(float(t), 4) for t in -z0 / max(1e-9, np.linalg.norm(z0))]
            if any(v):
                P = Problem(prob)
                f0 = max(P.raw(np.asarray(x0, float), [0.0, 0.0])[0], 1e-3) * rng.choice([1.1, 1.5])
                nn = np.asarray(v, float)
                H = P.H * P.scale
                if prob["family"] == "quad":
                    dist = float(np.sqrt(2 * f0 * nn @ np.linalg.solve(H, nn)))
                else:
                    dist = float(np.linalg.norm(np.asarray(x0) - P.c) * rng.choice([1.02, 1.3]) * np.linalg.norm(nn)) + 0.01
                faults.append({"what": "eval", "kind": rng.choice(["value_nan", "all_nan"]), "from": 0, "to": 10**9, "region": {"n": v, "b": round(float(nn @ P.c) + dist * 1.01, 4)}})
                datas = datas[:1]
                ops = [{**o, "d": 0} for o in ops]
        return dict(seed=rng.randrange(2**31), problem=prob, x0=x0, data=datas, ops=ops, faults=faults, heal=rng.choice(["steps", "steps", "run"]))

    @precise
    def setup(self, cfg):
        magpi = _env.load_magpi()
        svc = Service()
        return dict(cfg=cfg, svc=svc, opt=Optimizer(magpi, svc, cfg))

    @precise
    def execute(self, env, plan, ctx: Ctx):
        cfg, svc, opt = env["cfg"], env["svc"], env["opt"]
        o = cfg["opts"]
        rmin, tol = F32(o["min_tr_radius"]), F32(o["tol"])
        svc.begin(Problem(plan["problem"]), plan["faults"], plan["seed"], ctx)
        cur = StepView(make_tree(cfg["tree"], plan["x0"]), None)
        have = False
        ops = [{"op": "init", "d": 0}] + plan["ops"]
        for i, op in enumerate(ops):
            d = plan["data"][op["d"]]
            svc.start_op(i, cur.x)
            ctx.steps += 1
            try:
                if not have or op["op"] == "init":
                    new = opt.init(cur.params, d)
                elif op["op"] == "warm":
                    new = opt.warm(cur, d)
                elif op["op"] == "run":
                    new = opt.run(cur, d)
                else:
                    new = opt.update(cur, d)
            except Injected:
                ctx.probe("call_raised")
                ctx.choice(i, "raised")
                continue
            if not np.all(np.isfinite(new.x)):
                raise Violation("poisoned-params", f"operation {i}: parameters {new.x.tolist()}")
            if any(e[5] and "grad" in e[5] for e in svc.evals):
                ctx.probe("poisoned_gradient")
            if any(h[3] for h in svc.hvps):
                ctx.probe("poisoned_curvature")
            ctx.choice(i, op["op"], bool(np.asarray(new.state.accepted)), new.r)
            cur, have = new, True
        # ---- heal
        region = [f for f in plan["faults"] if "region" in f]
        n_region = sum(ctx.faults.values())
        svc.faults = region
        d = plan["data"][0]
        barrier = plan["problem"]["family"] == "barrier"
        start_f = None
        steps = restarts = 0
        if not have:
            svc.start_op(9000, cur.x)
            cur = opt.init(cur.params, d)
        if plan["heal"] == "run":
            ctx.probe("healed_by_run")
            limit = RESTARTS + (BUDGET // max(1, o["maxiter"])) + 1
            while True:
                svc.start_op(9001 + restarts, cur.x)
                cur = opt.run(cur, d)
                restarts += 1
                ctx.steps += 1
                if F32(np.asarray(cur.state.error)) <= tol:
                    break
                if restarts > limit:
                    self.fail(cur, f"{restarts} runs of up to {o['maxiter']} steps", plan)
        else:
            # the state carries what the failing phase left behind; the first healed step re-evaluates
            while True:
                if F32(cur.r) <= rmin:
                    if restarts > RESTARTS:
                        self.fail(cur, f"{restarts} warm restarts and {steps} steps", plan)
                    svc.start_op(9001 + steps + restarts, cur.x)
                    cur = opt.warm(cur, d)
                    restarts += 1
                    ctx.probe("collapsed_then_restarted")
                else:
                    if steps > BUDGET:
                        self.fail(cur, f"{steps} steps and {restarts} warm restarts", plan)
                    svc.start_op(9001 + steps + restarts, cur.x)
                    cur = opt.update(cur, d)
                    steps += 1
                    ctx.steps += 1
                    if any(np.isnan(e[2]) and np.all(np.isfinite(np.frombuffer(e[0], F32))) for e in svc.evals):
                        ctx.probe("undefined_region_entered")
                    if F32(np.asarray(cur.state.error)) <= tol:
                        break
        if svc.errors:
            raise RuntimeError(str(svc.errors))
        if sum(ctx.faults.values()) > n_region:
            ctx.probe("nan_region_entered")
        # the claimed convergence is real
        _, g, _ = svc.problem.raw(cur.x, np.asarray(d))
        gn = float(np.linalg.norm(g))
        expect(gn <= float(tol) * 1.02 + 1e-5, "false-convergence", f"reported error {cur.state.error} but the gradient norm is {gn}")
        ctx.probe("healed_converged")
        ctx.probe("healed_steps_total", steps)
        if steps > 40:
            ctx.probe("healed_steps_over_40")
        ctx.choice("healed", steps, restarts)
        ctx.log("healed", steps, restarts, cur.x)

    def fail(self, cur, after, plan):
        raise Violation("no-convergence", f"still error {float(np.asarray(cur.state.error))!r}, radius {cur.r}, params {cur.x.tolist()} after {after} without failures "
                        f"({plan['problem']['family']}, minimiser near {plan['problem']['c']})")
