"""C01, C02, C03: histories of trust-region operations against a faulty objective service."""
from __future__ import annotations

import math

import jax
import numpy as np

from . import env as _env
from .core import Ctx, Injected, Scenario, Violation, bits_equal, expect, lib
from .tr_ref import Ref
from .tr_world import (F32, Optimizer, Problem, Service, StepView, flat_tree, gen_cfg, gen_faults, gen_problem,
                       gen_x0, make_tree, precise, tree_dim)


def leaves(step):
    return jax.tree.leaves((step.params, step.state))


def same_step(a, b):
    la, lb = leaves(a), leaves(b)
    return len(la) == len(lb) and all(bits_equal(x, y) for x, y in zip(la, lb))


def isnone(v):
    return v is None


class TrHistory(Scenario):
    """Common driver: a plan is a list of operations on one optimisation; subclasses judge each transition."""
    components_real = ["magpi.tr.TR (init_state, update, run), steihaug, update_tr_radius, calc.value_grad_hvp, utils.make_funs_with_aux",
                       "jaxopt loop/base, JAX/XLA CPU"]
    components_stub = ["objective, gradient and curvature service (float64 on the host, reached by jax.pure_callback)",
                       "caller (operation sequence, per-call data, crash and retry)"]
    rule = ("a run is one seeded problem, start point and sequence of init/step/warm-restart/run operations with per-call data and "
            "PRF-decided evaluation faults; non-trivial if at least one fault fired or a step was rejected or the radius changed")
    measure = "digest of the sequence (operation, fault kinds fired, accepted, radius moved up/down/same, collapsed, raised)"
    runs_per_block = 40
    blocks = {"quick": 80, "thorough": 640}
    expected_probes = ("accepted", "rejected", "radius_shrunk", "radius_grown", "collapsed_noop", "warm_restart", "warm_restart_collapsed", "run_op",
                       "jumped", "call_raised", "eval_value_nan", "eval_grad_nan", "eval_value_inf", "hvp_nan")
    run_ops = True
    noise = False

    def gen_block(self, rng, tier):
        cfg = gen_cfg(rng)
        if rng.random() < 0.12:     # a configuration in which ratios are exact and sit on the thresholds
            cfg["exact"] = True
            cfg["tree"] = "scalar"
            cfg["opts"] = dict(init_tr_radius=rng.choice([0.5, 1.0]), max_tr_radius=4.0, min_tr_radius=2.0 ** -6, rho_increase=rng.choice([1.0, 0.75]), increase_factor=2,
                               rho_decrease=1.0, decrease_factor=0.25, rho_accept=rng.choice([1.0, 0.5]), tol=1e-3, maxiter=8)
        elif rng.random() < 0.2:    # objectives of very small or large magnitude
            cfg["mag"] = rng.choice([1e-9, 1e-9, 1e-6, 1e6])
            cfg["opts"]["tol"] = cfg["opts"]["tol"] * cfg["mag"]
        if cfg["opts"].get("init_tr_radius", 1.0) > cfg["opts"].get("max_tr_radius", 2.0):
            cfg["opts"]["init_tr_radius"] = cfg["opts"]["max_tr_radius"]
        if cfg["opts"].get("rho_accept", 0) > cfg["opts"].get("rho_decrease", 0.25):
            cfg["opts"]["rho_accept"] = cfg["opts"]["rho_decrease"]
        return cfg

    def gen_run(self, rng, cfg, tier):
        n = tree_dim(cfg["tree"])
        prob = gen_problem(rng, n)
        if cfg.get("mag"):
            prob["scale"], prob["offset"] = prob["scale"] * cfg["mag"], 0.0
        if cfg.get("exact"):
            prob = dict(family="linear", n=1, lam=[rng.choice([1.0, 2.0, -1.0, 4.0])], c=[0.0], rot=0, scale=1.0, offset=0.0)
        x0 = [float(round(v * 4) / 4) for v in gen_x0(rng, prob)] if cfg.get("exact") else gen_x0(rng, prob)
        nops = rng.choice([3, 6, 10, 16]) if tier == "quick" else rng.choice([3, 8, 16, 30])
        varying = rng.random() < 0.5
        nd = rng.randint(2, 4) if varying else 1
        datas = [[float(round(rng.uniform(-2, 2), 1)) for _ in range(2)] for _ in range(nd)]
        if cfg.get("exact"):
            datas = [[4.0 * round(v) for v in d] for d in datas]
        ops = []
        for _ in range(nops):
            u = rng.random()
            d = rng.randrange(nd)
            if u < 0.08:
                ops.append({"op": "warm", "d": d})
            elif u < 0.16 and self.run_ops:
                ops.append({"op": "run", "d": d, "from": rng.choice(["step", "params"])})
            elif u < 0.2:
                ops.append({"op": "init", "d": d})
            else:
                ops.append({"op": "step", "d": d, "as_step": rng.random() < 0.3})
            if ops[-1]["op"] in ("warm", "step") and rng.random() < (0.4 if ops[-1]["op"] == "warm" else 0.04):
                # the caller continues with other parameters and the state it has
                ops[-1]["jump"] = [round(rng.uniform(-1, 1), 2) if not cfg.get("exact") else float(rng.choice([-4, 4])) for _ in range(n)]
        faults = gen_faults(rng, nops + 1, n, not cfg["opts"].get("approx_hvp"), noise=self.noise)
        if cfg.get("exact"):
            faults = [f for f in faults if f["kind"] not in ("noise", "neg")]
        return dict(seed=rng.randrange(2**31), problem=prob, x0=x0, data=datas, ops=ops, faults=faults)

    def shrink_more(self, plan):
        if len(plan["data"]) > 1:
            yield {**plan, "data": plan["data"][:1], "ops": [{**o, "d": 0} for o in plan["ops"]]}
        if any(plan["x0"]):
            yield {**plan, "x0": [round(v) for v in plan["x0"]]}

    @precise
    def setup(self, cfg):
        magpi = _env.load_magpi()
        svc = Service()
        return dict(cfg=cfg, svc=svc, opt=Optimizer(magpi, svc, cfg))

    @precise
    def execute(self, env, plan, ctx: Ctx):
        cfg, svc, opt = env["cfg"], env["svc"], env["opt"]
        svc.begin(Problem(plan["problem"]), plan["faults"], plan["seed"], ctx)
        self.start(env, plan, ctx)
        params = make_tree(cfg["tree"], plan["x0"])
        cur = StepView(params, None)
        ops = [{"op": "init", "d": plan["ops"][0]["d"] if plan["ops"] else 0}] + plan["ops"]
        have = False
        for i, op in enumerate(ops):
            d = plan["data"][op["d"]]
            kind = op["op"]
            if not have and kind in ("step", "warm"):
                kind = "init"
            if not have and kind == "run":
                op = {**op, "from": "params"}
            if have and op.get("jump"):
                cur = StepView(make_tree(cfg["tree"], cur.x + np.asarray(op["jump"], F32)), cur.state)
                ctx.probe("jumped")
            svc.start_op(i, cur.x)
            nf = sum(ctx.faults.values())
            ctx.steps += 1
            before = [np.array(v, copy=True) for v in leaves(cur)]
            try:
                if kind == "init":
                    new = opt.init(cur.params, d)
                elif kind == "warm":
                    new = opt.warm(cur, d)
                elif kind == "step":
                    new = opt.update(cur, d, op.get("as_step", False))
                else:
                    ctx.probe("run_op")
                    new = opt.run(cur if op["from"] == "step" else cur.params, d)
            except Injected:
                if svc.errors:
                    raise RuntimeError(f"harness: {svc.errors}")
                ctx.probe("call_raised")
                ctx.choice(i, kind, "raised")
                ctx.log("raised", i, kind)
                expect(all(bits_equal(a, b) for a, b in zip(before, leaves(cur))), "arguments-modified", "an aborted call changed the caller's step")
                continue
            if svc.errors:
                raise RuntimeError(f"harness: {svc.errors}")
            noop = have and kind == "step" and F32(np.asarray(cur.state.tr_radius)) <= F32(cfg["opts"]["min_tr_radius"])
            ctx.log(kind, new.x, float(np.asarray(new.state.value)), float(np.asarray(new.state.tr_radius)), new.iter)
            acc = bool(np.asarray(new.state.accepted))
            if kind == "step" and not noop:
                ctx.probe("accepted" if acc else "rejected")
                if new.r < cur.r:
                    ctx.probe("radius_shrunk")
                if new.r > cur.r:
                    ctx.probe("radius_grown")
                if not acc or new.r != cur.r:
                    ctx.nontrivial = True
            if noop:
                ctx.probe("collapsed_noop")
            if kind == "warm":
                ctx.probe("warm_restart_collapsed" if F32(cur.r) <= F32(cfg["opts"]["min_tr_radius"]) else "warm_restart")
            ctx.choice(i, kind, sum(ctx.faults.values()) > nf, acc, (new.r > cur.r) - (new.r < cur.r) if have else 0, noop)
            self.judge(env, ctx, kind, op, cur, new, d, noop, have, plan)
            cur = new
            have = True

    def start(self, env, plan, ctx):
        pass

    def judge(self, env, ctx, kind, op, cur, new, d, noop, have, plan):
        raise NotImplementedError


def where(kind, svc):
    return f"operation {svc.op} ({kind})"


class C01(TrHistory):
    id = "C01"

    def judge(self, env, ctx, kind, op, cur, new, d, noop, have, plan):
        cfg, svc = env["cfg"], env["svc"]
        w = where(kind, svc)
        st = new.state
        if noop:
            expect(same_step(cur, new), "noop-changed", f"{w}: update of a collapsed optimizer changed something")
            return
        if kind in ("init", "warm"):
            expect(bits_equal(cur.x, new.x), "params-changed", f"{w}: initialisation changed the parameters")
        if kind == "run" and not svc.evals:
            raise Violation("no-evaluation", f"{w}: run reported a result without evaluating")
        db = np.asarray(d, F32).tobytes()
        here = [e for e in svc.evals if e[0] == new.x.tobytes() and e[1] == db]
        value = np.asarray(st.value)
        g = flat_tree(st.grad)
        if not here:
            other = [e for e in svc.evals if e[0] == new.x.tobytes()]
            raise Violation("unevaluated-point", f"{w}: objective was never evaluated at the returned parameters {new.x.tolist()}"
                            + (" with this call's data" if other else "") + f"; reported value {value}")
        expect(any(bits_equal(e[2], value) for e in here), "value-mismatch",
               lambda: f"{w}: reported value {value!r}, objective said {[e[2] for e in here][:4]} at the returned parameters")
        expect(any(bits_equal(e[3], g) for e in here), "grad-mismatch",
               lambda: f"{w}: reported gradient {g.tolist()}, objective said {[e[3].tolist() for e in here][:4]} at the returned parameters")
        if cfg["aux"]:
            tag = np.asarray(st.aux["tag"])
            expect(any(bits_equal(e[4], tag) for e in here), "aux-mismatch",
                   lambda: f"{w}: reported aux {tag!r}, objective said {[e[4] for e in here][:4]} at the returned parameters")
        else:
            expect(st.aux is None, "aux-mismatch", f"{w}: aux reported without has_aux")
        err = float(np.asarray(st.error))
        with np.errstate(all="ignore"):
            ref = float(np.sqrt(np.sum(g.astype(float) ** 2)))
        ok = (math.isnan(err) and math.isnan(ref)) if math.isnan(ref) else (err == ref if math.isinf(ref) else abs(err - ref) <= 100 * F32.eps * ref + 1e-30)
        if not ok and math.isfinite(ref) and ref > 1e18 and math.isinf(err):
            ok = True   # float32 overflow of the squares
        expect(ok, "error-mismatch", f"{w}: reported error {err!r}, norm of reported gradient {ref!r}")
        if kind == "step":
            p = flat_tree(st.subproblem_result.p)
            if bool(np.asarray(st.accepted)):
                tol = 4 * F32.eps * (np.abs(cur.x) + np.abs(p)) + 1e-37
                expect(np.all(np.abs(new.x.astype(float) - (cur.x.astype(float) + p.astype(float))) <= tol), "step-mismatch",
                       lambda: f"{w}: accepted, moved by {(new.x - cur.x).tolist()} but reports step {p.tolist()}")
            else:
                expect(bits_equal(new.x, cur.x), "rejected-moved", lambda: f"{w}: rejected but moved by {(new.x - cur.x).tolist()}")


class C02(TrHistory):
    id = "C02"
    noise = True

    def judge(self, env, ctx, kind, op, cur, new, d, noop, have, plan):
        cfg, svc = env["cfg"], env["svc"]
        w = where(kind, svc)
        if noop:
            expect(bits_equal(cur.x, new.x), "noop-moved", f"{w}: collapsed optimizer moved")
            return
        expect(np.all(np.isfinite(new.x)), "non-finite-params", lambda: f"{w}: parameters became {new.x.tolist()}")
        moved = not bits_equal(new.x, cur.x)
        db = np.asarray(d, F32).tobytes()
        if kind in ("init", "warm"):
            expect(not moved, "init-moved", f"{w}: initialisation moved the parameters")
            return
        at_old = {float(e[2]) for e in svc.evals if e[0] == cur.x.tobytes() and e[1] == db}
        at_new = {float(e[2]) for e in svc.evals if e[0] == new.x.tobytes() and e[1] == db}
        acc = bool(np.asarray(new.state.accepted))
        if moved:
            expect(bool(at_new), "moved-unevaluated", f"{w}: moved to a point that was never evaluated with this call's data")
            good = [v for v in at_new if not math.isnan(v)]
            expect(bool(good), "moved-to-nan", f"{w}: moved to a point with NaN value")
            old = [v for v in at_old if not math.isnan(v)]
            expect(bool(old), "moved-from-nan", f"{w}: moved although the value at the old point is NaN or unknown")
            zero = cfg["opts"]["rho_accept"] == 0     # a ratio of exactly 0 then reaches the threshold
            expect(min(good) < max(old) or zero and min(good) == max(old), "moved-uphill", lambda: f"{w}: moved from value {max(old)} to {min(good)}")
            ctx.probe("moved")
        if kind != "step":
            return
        ref = Ref(cfg, svc, cur, new, d)
        if ref.value_nan or (at_old and all(math.isnan(v) for v in at_old)):
            want = False
        else:
            want = ref.ge(cfg["opts"]["rho_accept"]) if ref.finite_p else False
        exact = cfg.get("exact") and not plan["faults"] and not cfg["opts"].get("approx_hvp")
        if exact and want is None and not ref.unknown and len(ref.rhos) == 1:
            # exactly representable ratio: no rounding anywhere
            want = self.exact_rho(env, cur, new, d) >= cfg["opts"]["rho_accept"]
            ctx.probe("exact_threshold")
        if want is None:
            ctx.probe("ratio_undecidable")
            return
        ctx.probe("ratio_decided")
        expect(acc == want, "accept-rule", lambda: f"{w}: accepted={acc} but actual/predicted reduction ratio is in {ref.rhos[:3]} (p={ref.p.tolist()}), "
               f"threshold {cfg['opts']['rho_accept']}")
        p = ref.p
        expect(moved == (acc and bool(np.any(ref.trial != cur.x))), "accept-move", f"{w}: accepted={acc} but moved={moved}")

    @staticmethod
    def exact_rho(env, cur, new, d):
        svc = env["svc"]
        p = flat_tree(new.state.subproblem_result.p).astype(float)
        t = (cur.x + p).astype(F32).tobytes()
        f0 = [float(e[2]) for e in svc.evals if e[0] == cur.x.tobytes()][0]
        f1 = [float(e[2]) for e in svc.evals if e[0] == t][0]
        g = [e[3] for e in svc.evals if e[0] == cur.x.tobytes()][0].astype(float)
        return (f0 - f1) / -(g @ p)


class C03(TrHistory):
    id = "C03"

    def judge(self, env, ctx, kind, op, cur, new, d, noop, have, plan):
        cfg, svc = env["cfg"], env["svc"]
        o = cfg["opts"]
        w = where(kind, svc)
        rmin, rmax, rinit = F32(o["min_tr_radius"]), F32(o["max_tr_radius"]), F32(o["init_tr_radius"])
        r0 = F32(cur.r) if have else None
        r1 = F32(new.r)
        expect(bool(rmin <= r1 <= rmax), "radius-bounds", f"{w}: radius {r1} outside [{rmin}, {rmax}]")
        if kind == "init":
            expect(r1 == rinit, "init-radius", f"{w}: fresh start has radius {r1}, configured {rinit}")
            return
        if kind == "warm":
            want = rinit if r0 <= rmin else r0
            expect(r1 == want, "warm-radius", f"{w}: warm restart from radius {r0} gives {r1}, expected {want} (min {rmin}, init {rinit})")
            return
        if kind == "run":
            return
        if noop:
            expect(same_step(cur, new), "noop-changed", f"{w}: update with collapsed radius changed something")
            expect(new.iter == cur.iter, "noop-iter", f"{w}: collapsed update counted as iteration")
            return
        expect(new.iter == cur.iter + 1, "iter-count", f"{w}: iteration count went from {cur.iter} to {new.iter}")
        sub = new.state.subproblem_result
        p = flat_tree(sub.p).astype(float)
        plen = float(np.linalg.norm(p)) if np.all(np.isfinite(p)) else math.nan
        expect(math.isnan(plen) or plen <= float(r0) * (1 + 1e-4), "step-too-long", f"{w}: step of length {plen} with radius {r0}")
        ref = Ref(cfg, svc, cur, new, d)
        rho = float(np.asarray(new.state.rho))
        with np.errstate(all="ignore"):
            down = max(F32(r0 * F32(o["decrease_factor"])), rmin)
            up = max(min(F32(r0 * F32(o["increase_factor"])), rmax), rmin)

        def is_(a, b):
            return abs(float(a) - float(b)) <= 1e-6 * float(b)

        shrink = ref.lt(o["rho_decrease"])
        grow_r = ref.gt(o["rho_increase"])
        if cfg.get("exact") and not plan["faults"] and not ref.unknown and len(ref.rhos) == 1 and not o.get("approx_hvp"):
            er = C02.exact_rho(env, cur, new, d)
            shrink, grow_r = bool(er < o["rho_decrease"]), bool(er > o["rho_increase"])
            ctx.probe("exact_threshold")
        if not ref.finite_p:
            # a NaN or infinite step: the trial value decides
            shrink = True if ref.value_nan else None
            grow_r = False
            if not ref.new and any(np.any(~np.isfinite(np.frombuffer(e[0], F32))) for e in svc.evals):
                vs = [e[2] for e in svc.evals if np.any(~np.isfinite(np.frombuffer(e[0], F32)))]
                shrink = True if all(math.isnan(v) for v in vs) else None
        elif ref.value_nan:
            shrink = True
        elif ref.value_any_nan:
            shrink = None
        if ref.finite_p and not ref.unknown and not ref.value_any_nan and not cfg["opts"].get("damping_factor"):
            ok = ref.contains(rho)
            if not ok and all(r[0] == "num" and r[1] == -math.inf for r in ref.rhos):
                ok = True
            expect(ok is not False, "rho-mismatch", lambda: f"{w}: reported ratio {rho}, evaluations say {ref.rhos[:3]}")
            ctx.probe("rho_checked")
        gap = abs(plen - float(r0)) / float(r0) if math.isfinite(plen) else 1.0
        at_bnd = True if gap < 2e-6 else (False if gap > 3e-5 else None)
        if shrink is True:
            expect(is_(r1, down), "radius-law", lambda: f"{w}: ratio {ref.rhos[:2]} (NaN trial: {ref.value_nan}) is below {o['rho_decrease']}: radius {r0} -> {r1}, expected {down}")
            ctx.probe("law_shrink")
        elif shrink is False:
            if grow_r is False or at_bnd is False:
                expect(is_(r1, r0), "radius-law", lambda: f"{w}: ratio {ref.rhos[:2]}, |p|={plen}: radius {r0} -> {r1}, expected unchanged")
                ctx.probe("law_keep")
            elif grow_r is True and at_bnd is True:
                expect(is_(r1, up), "radius-law", lambda: f"{w}: ratio {ref.rhos[:2]}, |p|={plen}: radius {r0} -> {r1}, expected {up}")
                ctx.probe("law_grow")
            else:
                expect(is_(r1, r0) or is_(r1, up), "radius-law", lambda: f"{w}: radius {r0} -> {r1}, expected {r0} or {up}")
        else:
            expect(is_(r1, r0) or is_(r1, up) or is_(r1, down), "radius-law", lambda: f"{w}: radius {r0} -> {r1}, expected {down}, {r0} or {up}")
            ctx.probe("law_undecidable")
