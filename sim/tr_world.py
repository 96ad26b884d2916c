"""Simulated objective service for the trust-region optimizer.

The solver runs compiled; every objective evaluation and every exact Hessian-vector product leaves the compiled
program through jax.pure_callback and is answered by `Service`, which computes the objective in float64, decides faults
with a keyed PRF of *what* is asked (never of arrival order) and logs the evaluation.
"""
from __future__ import annotations

import functools

import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, InjectedFault, Violation, bits_equal, expect, lib, prf

import jax
import jax.numpy as jnp

class Float:
    """The floating point type of the current block: usable as a dtype and as a scalar constructor."""
    dtype = np.dtype(np.float32)

    def __call__(self, v):
        return self.dtype.type(v)

    @property
    def eps(self):
        return float(np.finfo(self.dtype).eps)


F32 = Float()


def precise(method):
    """Run a scenario's setup or execute in the floating point type of its block."""
    @functools.wraps(method)
    def inner(self, env, *args):
        wide = env.get("cfg", env).get("x64", False)
        F32.dtype = np.dtype(np.float64 if wide else np.float32)
        try:
            with jax.enable_x64(wide):
                return method(self, env, *args)
        finally:
            F32.dtype = np.dtype(np.float32)
    return inner


S = jax.ShapeDtypeStruct
EPS32 = float(np.finfo(np.float32).eps)

TREES = {
    "vec": [("x", (3,))],
    "scalar": [("x", ())],
    "dict": [("b", (2,)), ("w", (2, 2))],
    "tuple": [("0", (2,)), ("1", (1,))],
    "vec6": [("x", (6,))],
}


def tree_dim(kind):
    return sum(int(np.prod(s)) for _, s in TREES[kind])


def make_tree(kind, flat):
    """numpy vector -> parameter tree of float32 arrays"""
    flat = np.asarray(flat, F32)
    leaves, i = [], 0
    for _, s in TREES[kind]:
        n = int(np.prod(s))
        leaves.append(flat[i:i + n].reshape(s))
        i += n
    if kind in ("vec", "scalar", "vec6"):
        return leaves[0]
    if kind == "dict":
        return dict(zip([n for n, _ in TREES[kind]], leaves))
    return tuple(leaves)


def flat_tree(tree):
    return np.concatenate([np.ravel(np.asarray(v)) for v in jax.tree.leaves(tree)]).astype(F32)


def to_host(tree):
    """The durable form of a step: plain numpy copies."""
    return jax.tree.map(lambda v: np.array(v, copy=True), tree)


# ----------------------------------------------------------------------------- objectives (float64, host)
class Problem:
    """family in {quad, indef, cos, barrier, rosen, sqrt, linear, quartic}; data shifts the centre."""

    def __init__(self, spec):
        self.spec = spec
        n = spec["n"]
        self.n = n
        self.fam = spec["family"]
        self.scale = spec.get("scale", 1.0)
        self.c = np.asarray(spec.get("c", [0.0] * n), float)
        lam = np.asarray(spec.get("lam", [1.0] * n), float)
        rs = np.random.RandomState(spec.get("rot", 0))
        Q, _ = np.linalg.qr(rs.randn(n, n))
        self.H = Q @ np.diag(lam) @ Q.T
        self.lam = lam
        self.offset = float(spec.get("offset", 0.0))

    def shift(self, data):
        d = np.asarray(data, float)
        return self.c + 0.25 * np.resize(d, self.n)

    def raw(self, x, data):
        """value, grad, hess"""
        z = np.asarray(x, float) - self.shift(data)
        n, fam, lam = self.n, self.fam, self.lam
        with np.errstate(all="ignore"):
            if fam == "quad":
                Hz = self.H @ z
                v, g, H = 0.5 * z @ Hz, Hz, self.H
            elif fam in ("indef", "quartic"):
                k = 0.3 if fam == "indef" else 0.2
                H0 = self.H if fam == "indef" else np.diag(np.abs(lam) + 0.1)
                Hz = H0 @ z
                v = 0.5 * z @ Hz + 0.25 * k * np.sum(z**4)
                g = Hz + k * z**3
                H = H0 + np.diag(3 * k * z**2)
            elif fam == "cos":
                w = 1.0 + np.abs(lam) % 2.0
                v = np.sum(1 - np.cos(w * z)) + 0.05 * z @ z
                g = w * np.sin(w * z) + 0.1 * z
                H = np.diag(w * w * np.cos(w * z) + 0.1)
            elif fam == "barrier":
                y = z + 1.0
                ly = np.where(y > 0, np.log(np.where(y > 0, y, 1.0)), np.nan)
                v = np.sum(y - ly - 1)
                g = np.where(y > 0, 1 - 1 / np.where(y > 0, y, 1.0), np.nan)
                H = np.diag(np.where(y > 0, 1 / np.where(y > 0, y, 1.0) ** 2, np.nan))
            elif fam == "rosen":
                v, g, H = 0.0, np.zeros(n), np.zeros((n, n))
                a = 2.0
                for i in range(n - 1):
                    t = z[i + 1] - z[i] ** 2
                    v += a * t * t + (1 - z[i]) ** 2
                    g[i] += -4 * a * z[i] * t - 2 * (1 - z[i])
                    g[i + 1] += 2 * a * t
                    H[i, i] += -4 * a * t + 8 * a * z[i] ** 2 + 2
                    H[i + 1, i + 1] += 2 * a
                    H[i, i + 1] += -4 * a * z[i]
                    H[i + 1, i] += -4 * a * z[i]
                if n == 1:
                    v, g, H = (1 - z[0]) ** 2, np.array([-2 * (1 - z[0])]), np.array([[2.0]])
            elif fam == "sqrt":
                s = np.sqrt(1 + z @ z)
                v, g = s, z / s
                H = np.eye(n) / s - np.outer(z, z) / s**3
            elif fam == "linear":
                v, g, H = lam @ z, lam.copy(), np.zeros((n, n))
            else:
                raise ValueError(fam)
        return self.scale * v + self.offset, self.scale * g, self.scale * H


class Service:
    def __init__(self):
        self.begin(None, None, "", None)

    def begin(self, problem, faults, seed, ctx):
        self.problem = problem
        self.faults = faults or []
        self.seed = seed
        self.ctx = ctx
        self.op = -1
        self.old = None
        self.evals = []      # (x bytes, data bytes, value f32, grad f32[], tag f32, fault)
        self.hvps = []
        self.occ = {}
        self.errors = []

    def start_op(self, i, old_flat):
        self.op = i
        self.old = None if old_flat is None else old_flat.tobytes()
        self.evals = []
        self.hvps = []
        self.occ = {}

    # -- fault decision: a function of (run seed, operation, kind, query, occurrence)
    def decide(self, what, xb, x):
        n = self.occ.get((what, xb), 0)
        self.occ[(what, xb)] = n + 1
        for j, f in enumerate(self.faults):
            if f["what"] != what:
                continue
            if not (f["from"] <= self.op <= f["to"]):
                continue
            sel = f.get("sel", "all")
            if sel == "old" and xb != self.old:
                continue
            if sel == "other" and xb == self.old:
                continue
            if "region" in f:
                rg = f["region"]
                with np.errstate(all="ignore"):
                    if not (np.dot(np.asarray(rg["n"], float), np.asarray(x, float)) > rg["b"]):
                        continue
                return f["kind"]
            if prf(self.seed, self.op, j, what, xb, n) < f["p"]:
                return f["kind"]
        return None

    def value_grad(self, data, *leaves):
        try:
            x = np.concatenate([np.ravel(np.asarray(v)) for v in leaves]).astype(F32)
            data = np.asarray(data)
            xb = x.tobytes()
            k = self.decide("eval", xb, x)
            v, g, _ = self.problem.raw(x, data)
            with np.errstate(all="ignore"):
                v, g = F32(v), np.asarray(g, F32)
            if k:
                self.ctx.fault("eval_" + k)
            if k == "raise":
                raise InjectedFault(MARK)
            if k in ("value_nan", "all_nan"):
                v = F32(np.nan)
            if k == "value_inf":
                v = F32(np.inf)
            if k in ("grad_nan", "all_nan"):
                g = np.full_like(g, np.nan)
            if k == "grad_inf":
                g = np.full_like(g, np.inf)
            if k == "grad_nan1":
                g = g.copy()
                g[int(prf(xb, "which") * len(g))] = np.nan
            tag = F32(int(prf(self.seed, self.op, "tag", xb, data.tobytes(), self.occ.get(("eval", xb), 0)) * 2**23) + 1)
            self.evals.append((xb, data.tobytes(), v, g, tag, k))
            if len(self.evals) > 20000:
                raise InjectedFault("too many evaluations")
            out, i = [], 0
            for lv in leaves:
                n = int(np.size(lv))
                out.append(g[i:i + n].reshape(np.shape(lv)))
                i += n
            return (v, tag, *out)
        except InjectedFault:
            raise
        except Exception as e:  # harness error: remember it, fail the call
            self.errors.append(repr(e))
            raise

    def hess(self, data, nleaf, *leaves):
        try:
            xs, ds = leaves[:nleaf], leaves[nleaf:]
            x = np.concatenate([np.ravel(np.asarray(v)) for v in xs]).astype(F32)
            d = np.concatenate([np.ravel(np.asarray(v)) for v in ds]).astype(F32)
            k = self.decide("hvp", x.tobytes() + d.tobytes(), d)
            _, _, H = self.problem.raw(x, np.asarray(data))
            with np.errstate(all="ignore"):
                h = np.asarray(H @ d.astype(float), F32)
            if k:
                self.ctx.fault("hvp_" + k)
            if k == "raise":
                raise InjectedFault(MARK)
            if k == "nan":
                h = np.full_like(h, np.nan)
            if k == "inf":
                h = np.full_like(h, np.inf)
            if k == "noise":
                rs = np.random.RandomState(int(prf(self.seed, x, d) * 2**31))
                h = (h + np.abs(h).max() * 0.3 * rs.randn(h.size)).astype(F32)
            if k == "neg":
                h = -h
            self.hvps.append((x, d, h, k))
            if len(self.hvps) > 50000:
                raise InjectedFault("too many products")
            out, i = [], 0
            for lv in ds:
                n = int(np.size(lv))
                out.append(h[i:i + n].reshape(np.shape(lv)))
                i += n
            return tuple(out)
        except InjectedFault:
            raise
        except Exception as e:
            self.errors.append(repr(e))
            raise


def make_objective(service: Service, kind, vg, has_aux, data_kw):
    """A JAX objective with the requested calling convention whose evaluations are served by `service`."""
    shapes = [S(s, F32.dtype) for _, s in TREES[kind]]

    def raw_call(leaves, data):
        out = jax.pure_callback(service.value_grad, (S((), F32.dtype), S((), F32.dtype), *shapes), data, *leaves)
        return out[0], out[1], tuple(out[2:])

    @jax.custom_jvp
    def ev(leaves, data):
        return raw_call(leaves, data)

    @ev.defjvp
    def _ev_jvp(primals, tangents):
        leaves, data = primals
        dleaves, _ = tangents
        v, tag, g = raw_call(leaves, data)
        hv = jax.pure_callback(lambda d, *a: service.hess(d, len(shapes), *a), tuple(shapes), data, *leaves, *dleaves)
        dv = sum(jnp.vdot(a, b) for a, b in zip(g, dleaves))
        return (v, tag, g), (dv, jnp.zeros_like(tag), tuple(hv))

    def call(tree, data):
        leaves, treedef = jax.tree.flatten(tree)
        v, tag, g = ev(tuple(leaves), data)
        return v, tag, jax.tree.unflatten(treedef, list(g))

    if vg:
        def fun(tree, data):
            v, tag, g = call(tree, data)
            return ((v, {"tag": tag}), g) if has_aux else (v, g)
    else:
        @jax.custom_vjp
        def f(tree, data):
            v, tag, _ = call(tree, data)
            return v, tag

        def fwd(tree, data):
            v, tag, g = call(tree, data)
            return (v, tag), g

        def bwd(g, ct):
            return jax.tree.map(lambda a: ct[0] * a, g), None

        f.defvjp(fwd, bwd)

        def fun(tree, data):
            v, tag = f(tree, data)
            return (v, {"tag": tag}) if has_aux else v

    # calling conventions for the data; a default that is used by mistake shows up as other data
    no = jnp.asarray(7.5, F32.dtype)
    if data_kw in (True, "kw"):
        return lambda tree, *, data: fun(tree, data)
    if data_kw == "kwdict":
        return lambda tree, *, batch: fun(tree, batch["d"])
    if data_kw == "scalar":
        return lambda tree, rest, first=no: fun(tree, jnp.concatenate([jnp.reshape(first, (1,)), rest]))
    if data_kw == "rest":
        return lambda tree, first, *, rest=None, flag=None: fun(tree, jnp.concatenate([jnp.reshape(first, (1,))] + ([] if rest is None else [rest])))
    return lambda tree, data: fun(tree, data)


def call_args(conv, d):
    """(args, kwargs) that pass the data vector d by convention"""
    if conv in (True, "kw"):
        return (), {"data": d}
    if conv == "kwdict":
        return (), {"batch": {"d": d}}
    if conv == "scalar":
        return (d[1:],), {"first": d[0]}
    if conv == "rest":
        return (d[0],), {"rest": d[1:]}
    return (d,), {}


class StepView:
    """Host view of an OptStep."""

    def __init__(self, params, state):
        self.params = params
        self.state = state
        self.x = flat_tree(params)

    @property
    def r(self):
        return float(np.asarray(self.state.tr_radius))

    @property
    def iter(self):
        return int(np.asarray(self.state.iter_num))


class Optimizer:
    """A compiled solver bound to a service, plus its restart entry points."""

    def __init__(self, magpi, service, cfg, callback=None):
        self.magpi, self.service, self.cfg = magpi, service, cfg
        fun = make_objective(service, cfg["tree"], cfg["vg"], cfg["aux"], cfg["data_kw"])
        self.solver = lib(magpi.tr.TR, fun, value_and_grad=cfg["vg"], has_aux=cfg["aux"], callback=callback, **cfg["opts"])
        kw = cfg["data_kw"]
        OptStep = magpi.tr.jaxopt_base.OptStep if hasattr(magpi.tr, "jaxopt_base") else None
        from jaxopt import OptStep
        self.OptStep = OptStep
        s = self.solver
        def call(f):
            def g(*a):
                x, k = call_args(kw, a[-1])
                return f(*a[:-1], *x, **k)
            return g

        self._init, self._upd, self._run = call(s.init_state), call(s.update), call(s.run)
        if cfg["opts"].get("jit", True):
            self._init = jax.jit(self._init)
            self._run = jax.jit(self._run)
        self._warm = self._init

    def data(self, d):
        return np.asarray(d, F32)

    def init(self, params, d):
        st = lib(self._init, params, self.data(d))
        return StepView(to_host(params), to_host(st))

    def warm(self, step, d):
        st = lib(self._init, self.OptStep(step.params, step.state), self.data(d))
        return StepView(step.params, to_host(st))

    def update(self, step, d, as_step=False):
        p = self.OptStep(step.params, step.state) if as_step else step.params
        out = lib(self._upd, p, step.state, self.data(d))
        return StepView(*to_host((out.params, out.state)))

    def run(self, params_or_step, d):
        p = self.OptStep(params_or_step.params, params_or_step.state) if isinstance(params_or_step, StepView) else params_or_step
        out = lib(self._run, p, self.data(d))
        return StepView(*to_host((out.params, out.state)))


# ----------------------------------------------------------------------------- generation
def gen_cfg(rng, callback=None, jit=None):
    tree = rng.choice(["vec", "vec", "dict", "tuple", "scalar", "vec6"])
    vg = rng.random() < 0.5
    approx = rng.random() < 0.3
    dec = rng.choice([0.25, 0.25, 0.5, 0.1])
    opts = dict(
        init_tr_radius=rng.choice([1.0, 1.0, 0.5, 0.1, 2.0]),
        max_tr_radius=rng.choice([2.0, 2.0, 4.0, 8.0]),
        min_tr_radius=rng.choice([1e-4, 1e-2, 0.05]),
        rho_increase=rng.choice([0.75, 0.75, 0.9]),
        rho_decrease=rng.choice([0.25, 0.25, 0.4]),
        decrease_factor=dec,
        increase_factor=rng.choice([2, 2, 3]),
        rho_accept=rng.choice([0.25, 0.25, 0.1, 0.1, 0.2, 0.02, 0.0]),
        forcing_parameter=rng.choice([0.5, 0.5, 1.0]),
        tol=rng.choice([1e-2, 1e-3, 1e-3]),
        maxiter=rng.choice([3, 8, 15, 30]),
        maxiter_steihaug=rng.choice([None, None, 1, 2, 5]),
    )
    if approx:
        opts.update(approx_hvp=True, fd_h=rng.choice([1e-2, 1e-3]))
    if rng.random() < 0.15:
        opts["damping_factor"] = rng.choice([0.1, 1.0])
    if rng.random() < 0.15:
        opts["unroll"] = True
        opts["maxiter_steihaug"] = rng.choice([2, 5])
        opts["maxiter"] = min(opts["maxiter"], 8)
    if rng.random() < 0.3:
        opts["implicit_diff"] = False
        opts["unroll"] = opts.get("unroll", False)
    return dict(tree=tree, vg=vg, aux=rng.random() < 0.6, data_kw=rng.choice(["no"] * 6 + ["kw", "kwdict", "scalar", "rest"]), opts=opts, x64=rng.random() < 0.12)


def gen_problem(rng, n, convex=False):
    fam = rng.choice(["quad", "quartic", "barrier"] if convex else ["quad", "indef", "cos", "barrier", "rosen", "sqrt", "linear", "quartic"])
    lam = [rng.choice([0.5, 1.0, 2.0, 5.0]) for _ in range(n)]
    if fam == "indef":
        lam = [l * rng.choice([1, -1]) for l in lam]
        if all(l > 0 for l in lam):
            lam[0] = -lam[0]
    return dict(family=fam, n=n, lam=lam, rot=rng.randrange(1000), c=[round(rng.uniform(-1, 1), 2) for _ in range(n)],
                scale=rng.choice([1.0, 1.0, 1.0, 0.1, 10.0]), offset=0.0 if convex else rng.choice([0.0, 0.0, 3.0, -2.0]))


def gen_x0(rng, prob):
    s = rng.choice([0.3, 1.0, 3.0])
    c = prob["c"]
    if prob["family"] == "barrier":
        return [round(ci + rng.choice([-0.9, -0.5, 0.5, 2.0]), 3) for ci in c]
    return [round(ci + rng.uniform(-s, s), 3) for ci in c]


def gen_faults(rng, nops, n, exact_hvp, raises=True, noise=False):
    out = []
    if rng.random() < 0.2:
        return out
    kinds = ["value_nan", "value_nan", "all_nan", "value_inf", "grad_nan", "grad_nan1", "grad_inf"]
    if raises:
        kinds.append("raise")
    rng.shuffle(kinds)
    kinds = kinds[:rng.randint(1, 3)]
    for k in kinds:
        a = rng.randrange(max(1, nops))
        b = min(nops, a + rng.choice([0, 0, 1, 2, 5]))
        out.append({"what": "eval", "kind": k, "from": a, "to": b, "sel": rng.choice(["other", "other", "old", "all"]), "p": rng.choice([1.0, 0.5, 0.2])})
    if exact_hvp and rng.random() < 0.4:
        a = rng.randrange(max(1, nops))
        ks = ["nan", "nan", "inf"] + (["raise"] if raises else []) + (["noise", "neg"] if noise else [])
        out.append({"what": "hvp", "kind": rng.choice(ks), "from": a, "to": a + rng.choice([0, 1, 3]), "sel": "all", "p": rng.choice([1.0, 0.5, 0.2])})
    if rng.random() < 0.4:
        v = [rng.choice([-1, 0, 1]) for _ in range(n)]
        if any(v):
            out.append({"what": "eval", "kind": rng.choice(["value_nan", "all_nan", "value_inf"]), "from": 0, "to": 10**6,
                        "region": {"n": v, "b": round(rng.uniform(0.3, 2.0), 2)}})
    return out
