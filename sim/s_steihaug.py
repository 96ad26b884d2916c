"""C16: the truncated conjugate-gradient solver against an unreliable curvature service."""
from __future__ import annotations

import math

import jax
import jax.numpy as jnp
import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, InjectedFault, Scenario, Violation, bits_equal, expect, lib, prf
from .tr_world import EPS32, F32, S, TREES, flat_tree, make_tree, to_host, tree_dim


class Curvature:
    """Serves H d.  `mode` decides how trustworthy the answers are; every answer is finite."""

    def begin(self, plan, n, ctx):
        self.plan, self.ctx, self.n = plan, ctx, n
        self.q = []
        rs = np.random.RandomState(plan["rot"])
        Q, _ = np.linalg.qr(rs.randn(n, n))
        self.H = Q @ np.diag(np.asarray(plan["lam"], float)) @ Q.T

    def __call__(self, *leaves):
        d = np.concatenate([np.ravel(np.asarray(v)) for v in leaves]).astype(F32)
        k = len(self.q)
        pl = self.plan
        h = self.H @ d.astype(float)
        for f in pl["faults"]:
            if not (f["from"] <= k <= f["to"]):
                continue
            self.ctx.fault("curv_" + f["kind"])
            if f["kind"] == "noise":
                rs = np.random.RandomState(int(prf(pl["seed"], k, d) * 2**31))
                h = h + f["a"] * np.linalg.norm(h) * rs.randn(self.n)
            elif f["kind"] == "neg":
                h = -np.abs(f["a"]) * d.astype(float)
            elif f["kind"] == "zero":
                h = np.zeros(self.n)
            elif f["kind"] == "huge":
                h = h * 1e10
            elif f["kind"] == "tiny":
                h = h * 1e-10
            elif f["kind"] == "random":
                rs = np.random.RandomState(int(prf(pl["seed"], "r", k, d) * 2**31))
                h = rs.randn(self.n) * np.linalg.norm(d) * f["a"]
            elif f["kind"] == "raise":
                raise InjectedFault(MARK)
        with np.errstate(all="ignore"):
            h = np.clip(h, -3e37, 3e37).astype(F32)
        self.q.append((d, h))
        if len(self.q) > 5000:
            raise RuntimeError("runaway")
        out, i = [], 0
        for v in leaves:
            m = int(np.size(v))
            out.append(h[i:i + m].reshape(np.shape(v)))
            i += m
        return tuple(out)


class C16(Scenario):
    id = "C16"
    components_real = ["magpi.tr.steihaug", "jaxopt loop, JAX/XLA CPU"]
    components_stub = ["curvature service (host, reached by jax.pure_callback)"]
    rule = ("a run is one call with a seeded gradient, radius, tolerance and a sequence of curvature answers, some replaced by faults; "
            "non-trivial if a fault fired, the boundary or non-positive curvature was met, or the budget ran out")
    measure = "digest of (fault kinds, number of products, how the call ended)"
    runs_per_block = 120
    blocks = {"quick": 100, "thorough": 800}
    list_fields = ("faults",)
    expected_probes = ("end_negative_curvature", "end_boundary", "end_tolerance", "end_budget", "end_immediately", "consistent", "call_raised", "curv_noise", "curv_neg", "curv_huge", "curv_zero", "krylov_checked", "residual_checked")

    def gen_block(self, rng, tier):
        tree = rng.choice(list(TREES))
        mode = rng.choice(["while", "while", "while", "scan", "python"]) if rng.random() < 0.7 else "while"
        return dict(tree=tree, mode=mode, maxiter=rng.choice([None, None, None, 1, 2, 3, 5, 20]) if mode != "scan" else rng.choice([1, 3, 12]), wrap=rng.random() < 0.5)

    def gen_run(self, rng, block, tier):
        n = tree_dim(block["tree"])
        kind = rng.choice(["spd", "spd", "indef", "nsd", "zero", "ill"])
        lam = [rng.choice([0.3, 1.0, 2.0, 5.0, 9.0]) for _ in range(n)]
        if kind == "indef":
            lam = [l * rng.choice([1, -1]) for l in lam]
        if kind == "nsd":
            lam = [-l for l in lam]
        if kind == "zero":
            lam = [0.0 if rng.random() < 0.6 else l for l in lam]
        if kind == "ill":
            lam = [10.0 ** rng.uniform(-3, 3) for _ in range(n)]
        gs = 10.0 ** rng.choice([-3, -1, 0, 0, 1, 3])
        g = [round(rng.gauss(0, 1), 3) for _ in range(n)]
        if rng.random() < 0.05:
            g = [0.0] * n
        if rng.random() < 0.1:
            g = [0.0] * n
            g[rng.randrange(n)] = 1.0
        g = [v * gs for v in g]
        gn = float(np.linalg.norm(g)) or 1.0
        radius = rng.choice([1e-4, 0.03, 0.5, 1.0, 2.0, 10.0, 1e3]) * (1.0 if rng.random() < 0.5 else gn)
        eps = rng.choice([1e-8, 1e-5, 1e-3, 1e-3, 1e-3, 0.01, 0.01, 0.1, 0.1, 0.1, 0.5, 2.0]) * gn if rng.random() < 0.8 else 10.0 ** rng.uniform(-3, 0)
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            a = rng.choice([0, 0, 1, 2, 3, 6])
            faults.append({"kind": rng.choice(["noise", "neg", "zero", "huge", "tiny", "random"] + (["raise"] if rng.random() < 0.1 else [])), "from": a, "to": a + rng.choice([0, 0, 1, 100]), "a": rng.choice([0.01, 0.3, 1.0, 5.0])})
        return dict(seed=rng.randrange(2**31), lam=lam, rot=rng.randrange(1000), g=g, radius=float(radius), eps=float(max(eps, 1e-12)), faults=faults)

    def setup(self, block):
        magpi = _env.load_magpi()
        srv = Curvature()
        shapes = [S(s, jnp.float32) for _, s in TREES[block["tree"]]]

        def hvp(d):
            leaves, td = jax.tree.flatten(d)
            return jax.tree.unflatten(td, list(jax.pure_callback(srv, tuple(shapes), *leaves)))

        def solve(g, radius, eps):
            kw = dict(maxiter=block["maxiter"])
            if block["mode"] == "while":
                kw.update(unroll=False, jit=True)
            elif block["mode"] == "scan":
                kw.update(unroll=True, jit=True)
            else:
                kw.update(unroll=True, jit=False)
            return magpi.tr.steihaug(g, hvp, radius, eps, **kw)

        return dict(block=block, srv=srv, fn=jax.jit(solve) if block["mode"] != "python" else solve)

    def execute(self, env, plan, ctx: Ctx):
        block, srv = env["block"], env["srv"]
        n = tree_dim(block["tree"])
        srv.begin(plan, n, ctx)
        g = np.asarray(plan["g"], F32)
        r, eps = float(F32(plan["radius"])), float(F32(plan["eps"]))
        tree = jax.tree.map(jnp.asarray, make_tree(block["tree"], g))
        try:
            out = to_host(lib(env["fn"], tree, F32(r), F32(eps)))
        except Injected:
            ctx.probe("call_raised")
            ctx.choice("raised", len(srv.q))
            return
        q = srv.q
        ctx.steps += len(q)
        budget = block["maxiter"] if block["maxiter"] is not None else 10 * n
        p = flat_tree(out.p).astype(float)
        plen = float(np.linalg.norm(p))
        ctx.log(len(q), p, r)
        for d, h in q:
            if not (np.all(np.isfinite(d)) and np.all(np.isfinite(h))):
                ctx.probe("direction_overflow")
                return      # float32 overflow upstream of the service: outside the property
        dd = [(float(d.astype(float) @ h.astype(float)), float(np.linalg.norm(d.astype(float)) * np.linalg.norm(h.astype(float)))) for d, h in q]
        if any(not s < 1e37 for _, s in dd) or any(np.linalg.norm(d.astype(float)) ** 2 < 1e-30 for d, _ in q) or any(0 < abs(c) < 1e-35 for c, _ in dd):
            ctx.probe("out_of_float_range")
            return
        expect(np.all(np.isfinite(p)), "non-finite-step", lambda: f"step {p.tolist()} although all products were finite (g={g.tolist()}, radius {r})")
        expect(plen <= r * (1 + 2e-4), "step-too-long", f"step length {plen} exceeds radius {r}")
        expect(len(q) <= budget, "budget-exceeded", f"{len(q)} curvature products, budget {budget}")
        expect(int(np.asarray(out.iter_num)) == len(q), "count-misreported", f"reports {int(np.asarray(out.iter_num))} iterations, asked for {len(q)} products")
        expect(abs(float(np.asarray(out.step_length)) - plen) <= 1e-5 * plen + 1e-18, "length-misreported", f"reports length {out.step_length}, step has length {plen}")
        tolc = 1e-5
        for k, (c, s) in enumerate(dd[:-1]):
            expect(not (c < -tolc * s or s == 0.0), "continued-past-negative-curvature", f"product {k + 1} of {len(q)} showed curvature {c} but the solver went on")
        gap = abs(plen - r) / r
        lim = bool(np.asarray(out.limit_step))
        if gap < 2e-6:
            expect(lim, "boundary-misreported", f"step length {plen} is at the radius {r} but limit_step is False")
        elif gap > 5e-5 and abs(plen - r) > 5e-8:
            expect(not lim, "boundary-misreported", f"step length {plen} is inside the radius {r} but limit_step is True")
        conv = bool(np.asarray(out.converged))
        last = dd[-1] if dd else None
        neg = last is not None and last[0] < -tolc * last[1]
        maybe_neg = last is not None and last[0] <= tolc * last[1]
        zero = last is not None and last[1] == 0.0
        # distance to the boundary of the last unconstrained iterate is not observable; a step to the boundary is
        if neg or zero:
            expect(gap < 1e-3, "negative-curvature-not-followed", f"non-positive curvature {last[0]} on the last product but the step has length {plen}, radius {r}")
            expect(conv, "convergence-misreported", "stopped at non-positive curvature but reports no convergence")
            ctx.probe("end_negative_curvature")
            end = "neg"
        elif gap < 5e-5:
            ctx.probe("end_boundary")
            end = "bnd"
        elif conv:
            end = "tol" if q else "immediate"
            ctx.probe("end_tolerance" if q else "end_immediately")
        else:
            end = "budget"
            expect(len(q) == budget, "gave-up-early", f"no convergence reported after {len(q)} of {budget} products, step length {plen} of {r}")
            ctx.probe("end_budget")
        if end == "tol" and gap > 1e-2 and not maybe_neg:
            nr = float(np.asarray(out.norm_r))
            expect(nr <= eps * (1 + 1e-4), "residual-above-tolerance", f"reports convergence (step length {plen} of {r}, curvature {last[0]}) with a reported residual of {nr}, tolerance {eps}")
            ctx.probe("residual_checked")
        if not q:
            expect(float(np.linalg.norm(g.astype(float))) <= eps * (1 + 1e-5), "no-work", f"no product requested although the gradient norm {np.linalg.norm(g)} is above {eps}")
            expect(plen == 0.0, "step-from-nothing", f"step {p.tolist()} without any product")
        if end not in ("tol", "immediate") or ctx.faults:
            ctx.nontrivial = True
        ctx.choice([f["kind"] for f in plan["faults"]], len(q), end)
        # ---- consistent service: the model is known
        if ctx.faults:
            return
        ctx.probe("consistent")
        H, g64 = srv.H, g.astype(float)
        lmax = float(np.max(np.abs(plan["lam"]), initial=0))
        gn = float(np.linalg.norm(g64))
        res = float(np.linalg.norm(g64 + H @ p))
        if end in ("tol", "immediate") and not maybe_neg:
            slack = 3e-4 * (gn + lmax * plen)
            expect(res <= eps * 1.01 + slack, "residual-above-tolerance", f"reports convergence with residual {res}, tolerance {eps}")
            expect(abs(float(np.asarray(out.norm_r)) - res) <= 0.02 * res + slack, "residual-misreported", f"reports residual {out.norm_r}, true residual {res}")
        well = min(plan["lam"]) > 0 and max(plan["lam"]) / min(plan["lam"]) < 50
        if well and block["maxiter"] is None and eps >= 1e-3 * gn:
            expect(conv, "no-convergence", f"positive definite well-conditioned model: not converged after {len(q)} products")
        if gn > 0 and q:
            m = lambda v: float(g64 @ v + 0.5 * v @ H @ v)
            curv = float(g64 @ H @ g64)
            t = r / gn
            if curv > 0:
                t = min(t, gn * gn / curv)
            mc = m(-t * g64)
            slack = 1e-3 * abs(mc) + 20 * EPS32 * (gn * plen + lmax * plen * plen)
            expect(m(p) <= mc + slack, "cauchy-decrease", f"model decrease {-m(p)} is less than {-mc} of the step along the negative gradient")
            if well and end in ("tol", "budget"):
                # interior step: optimal over the space spanned by the products asked for
                K = [g64 / gn]
                for _ in range(min(len(q), n) - 1):
                    v = H @ K[-1]
                    for _ in range(2):
                        for u in K:
                            v = v - (u @ v) * u
                    if np.linalg.norm(v) < 1e-8 * lmax:
                        break
                    K.append(v / np.linalg.norm(v))
                B = np.stack(K, 1)
                best = -B @ np.linalg.solve(B.T @ H @ B, B.T @ g64)
                ctx.probe("krylov_checked")
                expect(m(p) <= 0.98 * m(best), "not-conjugate", f"model decrease {-m(p)} after {len(q)} products, {-m(best)} is possible in the space they span")
