"""C14: corrupted entries, reordering and splitting of batches."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from . import env as _env
from .catalog import arr, rs
from .core import Ctx, Scenario, bits_equal, expect, lib

N = 8
LARGE = 1500
FUNS = {}


class Fun:
    def __init__(self, build, gen, axis=0):
        self.build, self.gen, self.axis = build, gen, axis


def fun(name, gen, axis=0):
    def deco(build):
        FUNS[name] = Fun(build, gen, axis)
        return build
    return deco


def unit(*shape):
    """rows in the unit cube, including its edges"""
    def g(r, v):
        sh = [s(v) if callable(s) else s for s in shape]
        x = r.random_sample([N] + sh).astype(np.float32)
        e = r.random_sample(x.shape)
        x = np.where(e < 0.04, 0.0, np.where(e < 0.08, 0.5, np.where(e < 0.12, 1.0, x))).astype(np.float32)
        return x
    return g


def normal(*shape, scale=1.0):
    def g(r, v):
        sh = [s(v) if callable(s) else s for s in shape]
        return (scale * r.standard_normal([N] + sh)).astype(np.float32)
    return g


# ---- domains
cube = lambda L, v: L.domain.Hypercube(tuple((-1.0, 0.5, 2.0)[: 1 + v]), tuple((1.0, 0.75, 5.0)[: 1 + v]))
fun("hypercube.transform", unit(lambda v: 1 + v))(lambda L, v: cube(L, v).transform)
fun("hypercube.transform_bnd", unit(lambda v: max(1, v)))(lambda L, v: cube(L, v).transform_bnd)
fun("hypercube.includes", normal(lambda v: 1 + v, scale=2.0))(lambda L, v: cube(L, v).includes)
para = lambda L, v: L.domain.Parallelogram((0.5, 0.1, 0.2)[: 2 + v % 2], (1.5, 0.3, 0.0)[: 2 + v % 2], (0.6, 1.0, 0.5)[: 2 + v % 2])
fun("parallelogram.transform", unit(2))(lambda L, v: para(L, v).transform)
fun("parallelogram.transform_bnd", unit())(lambda L, v: para(L, v).transform_bnd)
ball = lambda L, v: [L.domain.Sphere(1.5, (0.1, 0.2, 0.3)), L.domain.Disk(0.7, (1.0, -1.0)), L.domain.Disk(3.0, (0.0, 0.0))][v]
bdim = lambda v: 3 if v == 0 else 2
fun("ball.transform", unit(bdim))(lambda L, v: ball(L, v).transform)
fun("ball.includes", normal(bdim))(lambda L, v: ball(L, v).includes)
fun("sphere.transform_bnd", unit(2))(lambda L, v: L.domain.Sphere(1.0 + v, (0.1, 0.2, 0.3)).transform_bnd)
fun("disk.transform_bnd", unit())(lambda L, v: L.domain.Disk(1.0 + v, (0.1, 0.2)).transform_bnd)
fun("annulus.transform", unit(2))(lambda L, v: L.domain.Annulus(0.3, 1.0 + v, (0.1, 0.2)).transform)


@fun("triangle", unit(2))
def _(L, v):
    a, b, c = [jnp.asarray(arr("tri", v, i, shape=(2,))) for i in range(3)]
    return lambda x: L.domain.transform_triangle(x, a, b, c)


@fun("polyline", unit())
def _(L, v):
    pts = tuple(jnp.asarray(arr("pl", v, i, shape=(2 + v % 2,))) for i in range(3 + v))
    return lambda s: L.domain.transform_polyline(s, pts)


# ---- splines and networks
@fun("spline.basis", normal(scale=1.0))
def _(L, v):
    grid = L.spline.make_grid(-2.0, 2.0, 1.0 + 0.5 * v, 9)
    return lambda x: L.spline.basis(x, grid, degree=1 + v)


@fun("spline.basis_grids", normal(3, scale=1.0))
def _(L, v):
    grid = jnp.stack([L.spline.make_grid(-2.0 - i, 2.0, 1.0, 10) for i in range(3)])
    return lambda x: L.spline.basis(x, grid, degree=1 + v)


@fun("spline.activation", normal(3))
def _(L, v):
    m = L.spline.SplineActivation(nodes=9 + v, degree=2 + v % 2, parameterize_grid=bool(v % 2), coef_init=jax.nn.initializers.normal(0.5))
    p = m.init(jax.random.PRNGKey(v), jnp.ones((2, 3)))
    return lambda x: m.apply(p, x)


@fun("model.mlp", normal(2))
def _(L, v):
    m, p = L.model.mlp(jax.random.PRNGKey(v), [2, 5, 4, 1 + v % 2], [None, jnp.sin, jax.nn.swish][v])
    return lambda x: m.apply(p, x)


@fun("model.mlp_spline", normal(2))
def _(L, v):
    act = L.spline.SplineActivation(nodes=9, coef_init=jax.nn.initializers.normal(0.5))
    m = L.model.MLP([4, 1 + v], lambda x: L.spline.basis(x, L.spline.make_grid(-3.0, 3.0, 2.0, 9), degree=3).sum(-1) + jnp.tanh(x))
    p = m.init(jax.random.PRNGKey(v), jnp.ones(2))
    return lambda x: m.apply(p, x)


# ---- batched ODE states (rows evolve independently)
def ode_gen(r, v):
    return {"q": r.standard_normal((N, 2)).astype(np.float32), "w": r.standard_normal((N,)).astype(np.float32)}


@fun("ode.odeint", ode_gen, axis=1)
def _(L, v):
    def df(y, t, k):
        return {"q": -k * y["q"] * jnp.abs(y["w"])[..., None] + jnp.sin(t), "w": jnp.cos(y["q"][..., 0]) - y["w"]}

    ts = jnp.asarray([0.0, 0.1, 0.3, 0.35, 0.6])
    kw = {"method": L.ode.explicit_euler} if v == 1 else {}
    return lambda y: L.ode.odeint(df, y, ts, 1.0 + v, unroll=1 + v, **kw)


@fun("ode.vmapped", ode_gen)
def _(L, v):
    df = lambda y, t: {"q": -y["q"] * jnp.abs(y["w"]) + jnp.sin(t), "w": jnp.cos(y["q"][0]) - y["w"]}
    ts = jnp.asarray([0.0, 0.1, 0.3, 0.35])
    kw = {"method": L.ode.explicit_euler} if v == 1 else {}
    return jax.vmap(lambda y: L.ode.odeint(df, y, ts, **kw))


# ---- things mapped over points
def field(x):
    return jnp.stack([jnp.sin(x[0]) * x[1], x[1] ** 2 + x[0], jnp.cos(x[-1])])[: x.shape[0]]


def scal(x):
    return jnp.sin(x[0]) * x[-1] ** 2 + jnp.sum(x**3)


dim = lambda v: 2 + v % 2
fun("calc.laplace", normal(dim))(lambda L, v: jax.vmap(L.calc.laplace(scal)))
fun("calc.laplace_vector", normal(dim))(lambda L, v: jax.vmap(L.calc.laplace(field)))
fun("calc.divergence", normal(dim))(lambda L, v: jax.vmap(L.calc.divergence(field)))
fun("calc.value_and_divergence", normal(dim))(lambda L, v: jax.vmap(L.calc.value_and_divergence(field)))
fun("calc.curl", normal(dim))(lambda L, v: jax.vmap(L.calc.curl(field)))
fun("calc.jac", normal(dim))(lambda L, v: jax.vmap([L.calc.value_and_jacfwd, L.calc.value_and_jacrev, L.calc.value_and_jacfwd][v](field)))
fun("calc.derivative", normal(2))(lambda L, v: jax.vmap(L.calc.derivative([v % 2, 0], argnums=[0, 0])(scal)))
fun("calc.hessian_diag", normal(dim))(lambda L, v: jax.vmap(lambda x: L.calc.hessian_diag(scal, x)))
fun("calc.hvp", normal(dim))(lambda L, v: jax.vmap(lambda x: [L.calc.hvp, L.calc.hvp_forward_over_reverse, L.calc.hvp_reverse_over_reverse][v](scal, [x], [jnp.ones_like(x)])))


def geometry(L, v):
    R = L.r_fun
    a = R.cuboid([1.0, 2.0], centering=True, r_system=[R.r0, R.rp4, R.RhoBlending(0.4)][v])
    b = R.translate(R.sphere(0.8), [0.3, 0.2])
    c = R.rotate2d(R.scale(R.difference_(a, b) if hasattr(R, "difference_") else R.r0.difference(a, b), 1.3), 0.4, (0.1, 0.2))
    return R.r0.union(c, R.reflect(R.sphere(0.5), np.array([1.0, 0.5])))


fun("r_fun.geometry2d", normal(2))(lambda L, v: jax.vmap(geometry(L, v)))
fun("r_fun.normalize", normal(2))(lambda L, v: jax.vmap([L.r_fun.normalize_1st_order(L.r_fun.sphere(1.0)), L.r_fun.ellipsoid([1.0, 0.5]), L.r_fun.normalize_1st_order(L.r_fun.cuboid([1.0, 2.0]))][v]))
fun("r_fun.geometry3d", normal(3))(lambda L, v: jax.vmap([L.r_fun.rotate3d(L.r_fun.cuboid([1.0, 2.0, 0.5]), 0.3, (0.0, 0.6, 0.8)), L.r_fun.rotate3d(L.r_fun.cylinder(0.7), (0.1, 0.2, 0.3), o=(0.1, 0.0, 0.2)), L.r_fun.revolution(L.r_fun.sphere(1.0), axis=1)][v]))
fun("r_fun.grad", normal(2))(lambda L, v: jax.vmap(jax.grad(geometry(L, v))))


@fun("model.impose", normal(2))
def _(L, v):
    adf = L.r_fun.sphere(1.2)
    m, p = L.model.mlp(jax.random.PRNGKey(v), [2, 5, 1])
    f = lambda x: m.apply(p, x)
    g = [L.model.impose_dirichlet_bc(adf, f, lambda x: jnp.sum(x)), L.model.impose_neumann_bc(adf, f, lambda x: x[0]), L.model.impose_ic(lambda x: x[0], lambda x, t: f(x) * t)][v]
    return jax.vmap(g) if v < 2 else jax.vmap(lambda x: g(x, jnp.abs(x[1])))


fun("quaternion.rotation", normal(3))(lambda L, v: jax.vmap(lambda x: L.quaternions.quaternion_rotation(x, L.quaternions.from_axis_angle(0.3 + v, (0.0, 0.6, 0.8)))))
fun("quaternion.rotation_each", normal(6))(lambda L, v: jax.vmap(lambda x: L.quaternions.quaternion_rotation(x[:3], L.quaternions.from_euler_angles(x[3:]))))
fun("quaternion.reflection", normal(3))(lambda L, v: jax.vmap(lambda x: L.quaternions.quaternion_reflection(x, jnp.asarray([0.0, 0.6, 0.8]))))


@fun("quaternion.functions", normal(4))
def _(L, v):
    Q = L.quaternions

    def g(x):
        q = Q.Quaternion(x[0], x[1:])
        r = [Q.quanternion_exp(q), Q.quanternion_log(q), q**2.0][v]
        return r.real, r.imag

    return jax.vmap(g)


@fun("impose.of_laplace", normal(2))
def _(L, v):
    m, p = L.model.mlp(jax.random.PRNGKey(v), [2, 6, 1])
    u = L.model.impose_dirichlet_bc(L.r_fun.cuboid([2.0, 2.0], centering=True), lambda x: m.apply(p, x))
    return jax.vmap(L.calc.laplace(u))


# ---- surfaces, integrals, networks over grids of points, a fleet of optimisations
def _par(v):
    return lambda u: jnp.stack([u[..., 0], u[..., 1], (0.3 + 0.1 * v) * u[..., 0] * u[..., 1]], axis=-1)


@fun("surface.source", normal(3))
def _(L, v):
    S, u, par, m = L.surface_integral, jnp.linspace(0.0, 1.0, 3), _par(v), L.integrate.gauss(2)
    return jax.vmap(lambda x: S.source_tensor(x + 2.0, par, u, u, method=m, order=v % 2, compute_jacfwd=v < 2))


@fun("surface.charge", normal(3))
def _(L, v):
    S = L.surface_integral
    adf = L.r_fun.sphere(1.2)
    ch = S.scalar_potential_charge(adf, field, lambda x: jnp.sum(x**2), normalized=v == 1) if v else S.vector_potential_charge(adf, field, lambda x: jnp.roll(x, 1) * x, normalized=True)
    return jax.vmap(ch)


@fun("integrate.mapped", normal(2))
def _(L, v):
    d = [jnp.linspace(0.0, 1.0, 5), jnp.linspace(-1.0, 1.0, 4)]
    meth = [L.integrate.simpson, L.integrate.midpoint, L.integrate.gauss(3)][v]
    return jax.vmap(lambda k: L.integrate.integrate(lambda x, k: {"a": jnp.sin(k[0] * x[0]), "b": k * x[1]}, d, k, method=meth))


@fun("model.mlp_grid", normal(3, 2))
def _(L, v):
    m, p = L.model.mlp(jax.random.PRNGKey(v), [2, 6, 2], [None, jnp.cos, jax.nn.relu][v])
    return lambda x: m.apply(p, x)


@fun("spline.activation_1d", normal())
def _(L, v):
    m = L.spline.SplineActivation(nodes=8 + v, degree=1 + v, coef_init=jax.nn.initializers.normal(0.5))
    p = m.init(jax.random.PRNGKey(v), jnp.ones(1))
    return lambda x: m.apply(p, x[:, None])


@fun("calc.of_model", normal(2))
def _(L, v):
    m, p = L.model.mlp(jax.random.PRNGKey(v), [2, 6, 1])
    op = [L.calc.laplace(m), L.calc.laplace(lambda x: jnp.sum(m.apply(p, x))), None][v]
    if v == 0:
        return jax.vmap(lambda x: op(x, p))
    if v == 1:
        return jax.vmap(op)
    return jax.vmap(lambda x: L.calc.value_and_jacfwd(lambda y: m.apply(p, y))(x))


@fun("calc.curl_args", normal(4))
def _(L, v):
    return jax.vmap(lambda x: L.calc.curl(lambda y, k: field(y) * k)(x[: 2 + v % 2], x[3]))


@fun("tr.fleet", normal(3))
def _(L, v):
    def f(p, k):
        return jnp.sum((p["a"] - k) ** 2 * jnp.asarray([1.0, 3.0])) + 0.25 * jnp.sum(p["b"] ** 4) + 2.0 * (p["b"] - p["a"][0]) ** 2

    s = L.opt.TR(f, maxiter=60, tol=1e-4, approx_hvp=v == 1, init_tr_radius=1.0 + v, max_tr_radius=8.0)

    def run(x):
        # failing entries must not be noticed by the others; wildly distant ones are not expected to arrive
        return s.run({"a": x[:2], "b": x[2]}, x[:2] * 0.5).params

    return jax.vmap(run)


@fun("tr.fleet_update", normal(3))
def _(L, v):
    def f(p, k):
        return jnp.sum((p - k) ** 2 * jnp.asarray([1.0, 3.0, 2.0])) + 0.1 * jnp.sum(jnp.cos(p))

    s = L.opt.TR(f, maxiter=60, tol=1e-4, maxiter_steihaug=3, init_tr_radius=0.3 + v)

    def step(x):
        st = s.init_state(x, 0.25)
        q, st = s.update(x, st, 0.25)
        return q, st.value, st.grad, st.tr_radius

    return jax.vmap(step)


@fun("tr.subproblems", normal(3))
def _(L, v):
    H = jnp.diag(jnp.asarray([1.0, 2.0, 4.0][: 3])) + 0.1 * v

    def solve(g):
        r = L.tr.steihaug(g, lambda p: H @ p, 0.7 + v, 0.1)
        return r.p, r.step_length

    return jax.vmap(solve)


CORRUPT = {"nan": np.nan, "inf": np.inf, "ninf": -np.inf, "huge": 1e30, "neghuge": -3e20, "far": 12345.678, "zero": 0.0}


class C14(Scenario):
    id = "C14"
    components_real = ["magpi.domain, spline, model, ode, r_fun, calc, quaternions applied to batches", "JAX vmap/jit, XLA CPU"]
    components_stub = ["the batch producer: corrupts, reorders, repeats and splits entries"]
    rule = "a run is one library function on a batch of 8 seeded entries: rounds with corrupted entries, and rounds with reordered, repeated or split batches; non-trivial if at least one entry was corrupted or moved"
    measure = "digest of (function, corrupted entries and kinds, reorderings)"
    expected_probes = tuple("corrupt_" + k for k in CORRUPT) + ("reordered", "large_batch", "single_entry", "all_but_one_corrupted", "clean_rows_checked", "corrupted_row_checked")
    runs_per_block = 8
    blocks = {"quick": 147, "thorough": 735}
    list_fields = ("rounds",)

    def gen_block(self, rng, tier):
        names = sorted(FUNS)
        return dict(f=names[self.block_index % len(names)], v=(self.block_index // len(names)) % 3, jit=rng.random() < 0.75)

    def gen_run(self, rng, b, tier):
        rounds = []
        for _ in range(rng.choice([3, 5, 8])):
            if rng.random() < 0.65:
                k = rng.choice([1, 1, 2, 4, N - 1])
                rows = rng.sample(range(N), k)
                rounds.append(dict(op="corrupt", rows=[dict(i=i, kind=rng.choice(sorted(CORRUPT)), part=rng.choice(["all", "one"]), leaf=rng.randrange(4), pos=rng.randrange(16)) for i in rows]))
            else:
                n = rng.choice([1, 3, 5, N, N] * 4 + [LARGE])
                if n == N and rng.random() < 0.6:
                    idx = list(range(N))
                    rng.shuffle(idx)
                else:
                    idx = [rng.randrange(N) for _ in range(n)]
                bad = [dict(i=rng.randrange(n), kind=rng.choice(sorted(CORRUPT)), part="all", leaf=0, pos=0)] if n > 1 and rng.random() < 0.3 else []
                rounds.append(dict(op="take", idx=idx, rows=bad))
        return dict(data=rng.randrange(2**31), rounds=rounds)

    def setup(self, block):
        L = _env.load_magpi()
        f = FUNS[block["f"]]
        fn = lib(f.build, L, block["v"])
        return dict(block=block, fun=f, fn=jax.jit(fn) if block["jit"] else fn)

    def call(self, env, x):
        out = lib(env["fn"], jax.tree.map(jnp.asarray, x))
        n = jax.tree.leaves(x)[0].shape[0]
        res = []
        for v in jax.tree.leaves(out):
            v = np.asarray(v)
            ax = env["fun"].axis
            if v.ndim <= ax or v.shape[ax] != n:
                expect(n == 1, "wrong-shape", f"{env['block']['f']}: batch of {n} gave a result of shape {v.shape}")
                v = np.expand_dims(v, ax)
            res.append(np.moveaxis(v, ax, 0))
        return res

    def execute(self, env, plan, ctx: Ctx):
        b = env["block"]
        r = np.random.RandomState(plan["data"] % 2**32)
        x = env["fun"].gen(r, b["v"])
        base = self.call(env, x)
        ctx.choice(b["f"], b["v"])
        for q, rd in enumerate(plan["rounds"]):
            ctx.steps += 1
            y = x
            idx = rd["idx"] if rd["op"] == "take" else list(range(N))
            if rd["op"] == "take":
                y = jax.tree.map(lambda a: a[np.asarray(idx)], x)
                ctx.probe("reordered")
                if len(idx) == 1:
                    ctx.probe("single_entry")
                if len(idx) == LARGE:
                    ctx.probe("large_batch")
            y = jax.tree.map(np.array, y)
            leaves = jax.tree.leaves(y)
            bad = set()
            for c in rd["rows"]:
                leaf = leaves[c["leaf"] % len(leaves)]
                row = leaf[c["i"]].reshape(-1) if leaf.ndim > 1 else None
                if row is None:
                    leaf[c["i"]] = CORRUPT[c["kind"]]
                elif c["part"] == "all":
                    leaf[c["i"]] = CORRUPT[c["kind"]]
                else:
                    flat = leaf[c["i"]].reshape(-1)
                    flat[c["pos"] % flat.size] = CORRUPT[c["kind"]]
                    leaf[c["i"]] = flat.reshape(leaf[c["i"]].shape)
                bad.add(c["i"])
                ctx.fault("corrupt_" + c["kind"])
            if len(bad) == N - 1:
                ctx.probe("all_but_one_corrupted")
            ctx.nontrivial = True
            ctx.choice(rd["op"], sorted(bad), idx if len(idx) < 99 else sum(idx))
            got = self.call(env, y)
            for a, ref in zip(got, base):
                ref = ref[np.asarray(idx)]
                if ref.shape != a.shape and len(idx) == 1:
                    a = a.reshape(ref.shape)
                expect(a.shape == ref.shape, "wrong-shape", f"{b['f']}: {a.shape} instead of {ref.shape}")
                ctx.probe("clean_rows_checked", len(idx) - len(bad))
                if not bad and bits_equal(a, ref):
                    continue
                for i in range(len(idx)):
                    if i in bad:
                        continue
                    if bits_equal(a[i], ref[i]):
                        continue
                    sc = float(np.max(np.abs(ref[i]), initial=1.0)) if ref.dtype.kind == "f" else 1.0
                    ok = ref.dtype.kind == "f" and np.isfinite(sc) and np.allclose(a[i], ref[i], rtol=0, atol=5e-5 * sc, equal_nan=True)
                    cls = "contaminated" if bad else "depends-on-batch"
                    expect(ok, cls, lambda: f"{b['f']}[{b['v']}] entry {i}: {str(a[i].tolist())[:160]} instead of {str(ref[i].tolist())[:160]}" + (f" because entries {sorted(bad)} were corrupted" if bad else f" when dealt as {idx}"))
            # a corrupted entry's own result does not depend on its companions either
            own = {c["i"]: c["kind"] for c in rd["rows"]}
            for i, kind in sorted(own.items())[:2]:
                if kind in ("huge", "neghuge") or (kind == "far" and b["f"].startswith("tr.")) or sum(c["i"] == i for c in rd["rows"]) > 1:
                    continue
                alone = self.call(env, jax.tree.map(lambda a: np.repeat(a[i:i + 1], N, axis=0), y))
                ctx.probe("corrupted_row_checked")
                for a, ref in zip(got, alone):
                    u, w = (a[i].reshape(ref[0].shape) if a[i].size == ref[0].size else a[i]), ref[0]
                    if bits_equal(u, w):
                        continue
                    ok = u.shape == w.shape and u.dtype.kind == "f"
                    if ok:
                        fin = np.isfinite(w)
                        sc = max(1.0, float(np.max(np.abs(np.where(fin, w, 0.0)), initial=1.0)), 1e4 if kind == "far" else 0.0)
                        with np.errstate(all="ignore"):
                            ok = bool(np.all((np.isnan(u) & np.isnan(w)) | (u == w) | (np.abs(u - w) <= (1e-3 if kind == "far" else 1e-4) * sc)))
                    expect(ok, "depends-on-batch", lambda: f"{b['f']}[{b['v']}] entry {i} (corrupted: {kind}): {str(u.tolist())[:160]} in this batch, {str(w.tolist())[:160]} in a batch of its own")
            ctx.log(*got)
