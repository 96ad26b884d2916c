"""A catalogue of client programs over the whole public API.

Every entry has `make(L, v)` (build an operator, geometry, model or solver object) and `use(L, obj, x, A)` (apply it to
input variant x).  User functions contain `point(tag)`: the places where the library calls back into user code.
`A(value)` registers an argument whose value must survive the call.
"""
from __future__ import annotations

import functools
import threading

import jax
import jax.numpy as jnp
import numpy as np

_tls = threading.local()


def set_client(c):
    _tls.client = c


def point(tag):
    c = getattr(_tls, "client", None)
    if c is not None:
        c.at(tag)


_users = []


def U(f):
    """A user function whose attributes belong to the user."""
    _users.append((f, dict(vars(f)), f.__name__, f.__defaults__, f.__kwdefaults__))
    if len(_users) > 4000:
        del _users[:2000]
    return f


def marks():
    return list(_users[-400:])


def marked(before):
    for f, d, n, de, kw in before + _users[-400:]:
        now = dict(vars(f))
        if now.keys() != d.keys() or any(now[k] is not d[k] for k in d) or f.__name__ != n or f.__defaults__ is not de or f.__kwdefaults__ is not kw:
            return f"{n}: attributes {sorted(d)} -> {sorted(now)}"
    return None


def rs(*k):
    h = 1469598103
    for x in k:
        h = (h * 1099511 + hash_int(x)) % (2**32)
    return np.random.RandomState(h)


def hash_int(x):
    if isinstance(x, str):
        return functools.reduce(lambda a, b: (a * 131 + ord(b)) % (2**31), x, 7)
    return int(x)


def arr(*k, shape=(), lo=-1.0, hi=1.0):
    return (lo + (hi - lo) * rs(*k).random_sample(shape)).astype(np.float32)


ENTRIES = {}


class Entry:
    def __init__(self, name, make, use, calls_back, shareable=True, heavy=False, concrete=False):
        self.name, self.make, self.use, self.calls_back, self.shareable, self.heavy = name, make, use, calls_back, shareable, heavy
        self.concrete = concrete    # cannot be called under a JAX trace


def entry(name, calls_back=True, shareable=True, make=None, heavy=False, concrete=False):
    def deco(use):
        ENTRIES[name] = Entry(name, make or (lambda L, v: v), use, calls_back, shareable, heavy, concrete)
        return use
    return deco


# ------------------------------------------------------------------ user functions (fresh closures per object)
def scalar_field(v, dim=None):
    c = arr("sf", v)

    def f(x):
        point("f")
        return jnp.sum(jnp.sin((1 + c) * x) * x) + c * jnp.sum(x**2)

    return U(f)


def vector_field(v):
    w = arr("vf", v, shape=(3,))

    def f(x, *a):
        point("field")
        y = jnp.sin(w[: x.shape[0]] * x) + jnp.roll(x, 1) ** 2 * (1 + v)
        return y * a[0] if a else y

    return U(f)


# ------------------------------------------------------------------ calc
@entry("calc.derivative", make=lambda L, v: (v, [lambda: L.calc.derivative(_two(0), 0), lambda: L.calc.derivative([0, 1]), lambda: L.calc.derivative(["x", "y"])][v]()))
def _(L, obj, x, A):
    v, op = obj
    a, b = A(arr("d", x)), A(arr("d2", x))
    return (op if v == 0 else op(_two(7)))(a, b)


def _named(k):
    """Functions that live for one call only, with their arguments in different order."""
    def xy(x, y):
        point("named")
        return 2.0 * x + 3.0 * y

    def yx(y, x):
        point("named")
        return 2.0 * x + 3.0 * y

    def xyz(z, x, y=1.0):
        return 5.0 * z * x + y

    return U([xy, yx, xyz][k % 3])


@entry("calc.named")
def _(L, v, x, A):
    a, b = A(arr("dn", x)), A(arr("dn2", x))
    out = []
    for j in range(9):
        f = _named(j * (v + 1) + x)
        out.append(L.calc.value_and_derivative(f, "x")(a, b)[1])
        del f
        out.append(L.calc.derivative(["x"])(_named(j + v))(a, b))
    return out


def _two(v):
    c = float(arr("two", v))

    def f(x, y):
        point("two")
        return jnp.sin(x * y) * (1 + c) + x**3 * y**2

    return U(f)


@entry("calc.derivative_call")
def _(L, v, x, A):
    a = jnp.asarray(A(arr("dc", x, shape=(2,))))
    b = A(arr("dc2", x))

    def f(p, q):
        point("dcall")
        return jnp.sin(p[0] * q) * (1 + v) + p[1] ** 3 * q

    return L.calc.derivative(f, argnums=1)(a, b), L.calc.derivative(lambda q, p: f(p, q))(b, a), L.calc.value_and_derivative(f, v % 2, 0)(a, b)


@entry("calc.derivative_vec", make=lambda L, v: L.calc.derivative([v % 2, (v + 1) % 2], argnums=[0, 0])(scalar_field(v)))
def _(L, obj, x, A):
    return obj(jnp.asarray(A(arr("dv", x, shape=(2 + (x == 2),)))))


@entry("calc.value_and_derivative", make=lambda L, v: L.calc.value_and_derivative(_two(v), [0, 1, "y"][v]))
def _(L, obj, x, A):
    return obj(A(arr("vd", x)), A(arr("vd2", x)))


@entry("calc.value_and_jacfwd", make=lambda L, v: L.calc.value_and_jacfwd(vector_field(v)))
def _(L, obj, x, A):
    return obj(A(arr("vj", x, shape=(2 + x % 2,))))


@entry("calc.value_and_jacrev", make=lambda L, v: L.calc.value_and_jacrev(vector_field(v)))
def _(L, obj, x, A):
    return obj(A(arr("vjr", x, shape=(2 + x % 2,))))


@entry("calc.value_and_jacfwd_aux", make=lambda L, v: L.calc.value_and_jacfwd(lambda x, g=vector_field(v): (g(x), {"n": jnp.sum(x)}), has_aux=True))
def _(L, obj, x, A):
    return obj(A(arr("vja", x, shape=(2 + x % 2,))))


@entry("calc.hvp", make=lambda L, v: scalar_field(v))
def _(L, f, x, A):
    d = 2 + x
    p, t = [A(arr("h", x, shape=(d,)))], [A(arr("ht", x, shape=(d,)))]
    return L.calc.hvp(f, p, t), L.calc.hvp_forward_over_reverse(f, p, t), L.calc.hvp_forward_over_reverse(f, p, t, alpha=0.5), L.calc.hvp_reverse_over_reverse(f, p, t)


@entry("calc.value_grad_hvp", make=lambda L, v: (v, scalar_field(v)))
def _(L, obj, x, A):
    v, f = obj
    d = 2 + x
    p = {"a": A(arr("vg", x, shape=(d,))), "b": A(arr("vgb", x, shape=(2,)))}
    g = lambda q, s: s * f(q["a"]) + f(q["b"]) * jnp.sum(q["a"])
    if v == 0:
        val, gr, h = L.calc.value_grad_hvp(g, p, 2.0)
        return val, gr, h(p)
    if v == 1:
        val, gr, h, aux = L.calc.value_grad_hvp(lambda q, s: (g(q, s), {"s": s}), p, 3.0, has_aux=True)
        return val, gr, h(p), aux
    val, gr, h = L.calc.value_grad_hvp(lambda q: jax.value_and_grad(lambda q: g(q, 0.5))(q), p, value_and_grad=True)
    return val, gr, h(p)


@entry("calc.laplace", make=lambda L, v: L.calc.laplace(scalar_field(v)))
def _(L, obj, x, A):
    return obj(A(arr("lap", x, shape=() if x == 2 else (2 + x,))))


@entry("calc.hessian_diag", make=lambda L, v: scalar_field(v))
def _(L, f, x, A):
    return L.calc.hessian_diag(f, A(arr("hd", x, shape=(1 + x,))))


@entry("calc.divergence", make=lambda L, v: L.calc.divergence(vector_field(v)) if v else L.calc.value_and_divergence(vector_field(v)))
def _(L, obj, x, A):
    return obj(A(arr("div", x, shape=(2 + x % 2,))))


@entry("calc.curl", make=lambda L, v: L.calc.curl(vector_field(v)))
def _(L, obj, x, A):
    s = (A(arr("curls", x)),) if x == 2 else ()
    return obj(A(arr("curl", x, shape=(2 + x % 2,))), *s)


@entry("calc.laplace_of_module", calls_back=False, make=lambda L, v: L.model.mlp(jax.random.PRNGKey(v), [2, 4 + v, 1]))
def _(L, obj, x, A):
    model, params = obj
    return L.calc.laplace(model)(A(arr("lm", x, shape=(2,))), A(params))


@entry("calc.vmapped_laplace", make=lambda L, v: jax.jit(jax.vmap(L.calc.laplace(scalar_field(v)))), shareable=False)
def _(L, obj, x, A):
    return obj(A(arr("vl", x, shape=(3 + x, 2))))


@entry("utils.functions", make=lambda L, v: L.utils.make_funs_with_aux(*[(lambda p, data: (objective(0)(p, data), {"d": data}), False, True), (jax.value_and_grad(objective(1)), True, False), (objective(2), False, False)][v]))
def _(L, obj, x, A):
    p = A({"a": jnp.asarray(arr("ua", x, shape=(2,))), "b": jnp.asarray(arr("ub", x, shape=(1 + x,)))})
    d = A(jnp.asarray(arr("ud", x, shape=(2,))))
    return obj[0](p, d), obj[1](p, data=d), obj[2](p, d), len(str(L.utils.tree_single_dtype(p))), L.utils.tree_dim({"a": jnp.asarray(arr("ut", x, shape=(2 + x, 3))), "b": np.zeros(2 + x)})


# ------------------------------------------------------------------ domain
@entry("domain.hypercube", calls_back=False, concrete=True, make=lambda L, v: L.domain.Hypercube(tuple(arr("hc", v, shape=(1 + v,)).tolist()), tuple((2 + arr("hc2", v, shape=(1 + v,))).tolist())))
def _(L, d, x, A):
    n = d.dimension
    s = A(arr("hcs", x, shape=(3 + x, n), lo=0))
    b = A(arr("hcb", x, shape=(3 + x, max(1, n - 1)), lo=0))
    t = d.transform(s)
    tb = d.transform_bnd(b)
    return t, tb, d.includes(t), d.support(), d.dimension, d.normal_vec(tb)


@entry("domain.parallelogram", calls_back=False, make=lambda L, v: L.domain.Parallelogram((0.0, 0.1 * v, 1.0)[: 2 + v % 2], (1.0 + v, 0.2, 0.0)[: 2 + v % 2], (0.1, 1.0, 0.5)[: 2 + v % 2]))
def _(L, d, x, A):
    return d.transform(A(arr("pg", x, shape=(2,) if x == 2 else (3 + x, 2), lo=0))), d.transform_bnd(A(arr("pgb", x, shape=(3 + x,), lo=0))), d.support(), d.dimension


@entry("domain.round", calls_back=False, concrete=True, make=lambda L, v: [L.domain.Sphere(1.5, (0.1, 0.2, 0.3)), L.domain.Disk(0.7, (1.0, -1.0)), L.domain.Annulus(0.3, 0.9, (0.5, 0.5))][v])
def _(L, d, x, A):
    n = d.dimension
    t = d.transform(A(arr("rd", x, shape=(3 + x, n), lo=0)))
    out = [t, d.support()]
    if hasattr(d, "transform_bnd"):
        tb = d.transform_bnd(A(arr("rdb", x, shape=(3 + x, 2) if n == 3 else (3 + x,), lo=0)))
        out += [tb, d.includes(t), d.normal_vec(tb[0], rtol=1e-3)]
    return out


@entry("domain.functions", calls_back=False)
def _(L, v, x, A):
    D = L.domain
    p = [A(arr("df", v, i, shape=(2,))) for i in range(4)]
    s2, s1 = A(arr("ds", x, shape=(2 + x, 2), lo=0)), A(arr("ds1", x, shape=(2 + x,), lo=0))
    return D.transform_triangle(s2[0], *map(jnp.asarray, p[:3])), D.transform_polyline(jnp.asarray(s1), tuple(map(jnp.asarray, p))), D.transform_annulus(jnp.asarray(s2), jnp.asarray(0.1), jnp.asarray(1.0 + v), jnp.asarray(p[0]))


# ------------------------------------------------------------------ integrate
@entry("integrate.integrate", make=lambda L, v: [L.integrate.simpson, L.integrate.trap, L.integrate.gauss(2 + v)][v])
def _(L, rule, x, A):
    def f(y, a, b=1.0):
        point("integrand")
        return a * (jnp.sum(jnp.sin(y)) if x else jnp.sin(y)) + b

    d = [np.linspace(0, 1 + x, 3 + x), np.linspace(-1, 1, 4)] if x else np.linspace(0, 1, 5)
    d = A([jnp.asarray(q) for q in d] if x else jnp.asarray(d))
    return L.integrate.integrate(U(f), d, 2.0, method=rule, b=0.5 * x)


@entry("integrate.domains", make=lambda L, v: [L.integrate.simpson, L.integrate.trap, L.integrate.gauss(2)][v])
def _(L, rule, x, A):
    def f(y, *a):
        point("integrand")
        return {"u": jnp.sum(jnp.cos(y)), "v": y[0] * 2.0}

    ax = [np.linspace(1 + x, 0, 5), np.linspace(-1, 1, 3), np.linspace(2, 1, 3)][:2 + x % 2]
    ds = [A([q.astype(np.float32) for q in ax]), A(tuple(jnp.asarray(q) for q in ax)), A([jnp.asarray(ax[1]), jnp.asarray(ax[0])])]
    return [L.integrate.integrate(U(f), d, method=rule) for d in ds]


@entry("integrate.disk_sphere")
def _(L, v, x, A):
    def f(y):
        point("integrand")
        return {"one": 1.0 + 0 * y[0], "v": jnp.sum(y**2)}

    if v < 2:
        return L.integrate.integrate_disk(f, 1.0 + x, A(arr("idk", x, shape=(2,))), (4, 5) if v else 4, r_inner=0.1 * v)
    return L.integrate.integrate_sphere(f, 1.0, A(arr("isp", x, shape=(3,))), (3, 3, 4 + x))


# ------------------------------------------------------------------ model
def act(v):
    def a(x):
        point("activation")
        return jnp.tanh(x) * (1 + v)
    return U(a)


@entry("model.mlp_init", calls_back=True)
def _(L, v, x, A):
    m, p = L.model.mlp(A(jax.random.PRNGKey(x)), A([2, 3 + v, 4, 1 + v]), act(v))
    return p, m.apply(p, A(arr("mi", x, shape=(2 + x, 2))))


@entry("model.mlp_apply", make=lambda L, v: L.model.mlp(jax.random.PRNGKey(v), [2, 3 + v, 1 + v], act(v)))
def _(L, obj, x, A):
    m, p = obj
    return m.apply(A(p), A(arr("ma", x, shape=(2,) if x == 2 else (2 + x, 2))))


@entry("model.impose_ic", make=lambda L, v: (L.model.impose_ic(lambda y: (point("m0"), jnp.sin(y).sum())[1], t0=0.1 * v) if v == 2 else None, v))
def _(L, obj, x, A):
    deco, v = obj

    def mod(y, t, k=1.0):
        point("model")
        return k * jnp.sum(y) * jnp.cos(t)

    def m0(y):
        point("m0")
        return jnp.sum(y**2)

    f = deco(mod) if deco is not None else L.model.impose_ic(U(m0), U(mod), decay_rate=3.0 + v)
    return f(A(arr("ic", x, shape=(2,))), 0.3 * x, k=2.0)


@entry("model.impose_bc", make=lambda L, v: [lambda x, s=L.r_fun.sphere(1.0 + 0.1 * i): (point("adf"), s(x))[1] for i in [v]][0])
def _(L, adf, x, A):
    def mod(y, s):
        point("model")
        return jnp.sum(jnp.sin(y)) * s

    def g(y):
        point("bc")
        return jnp.sum(y)

    y = A(arr("bc", x, shape=(2 + x % 2,)))
    return L.model.impose_dirichlet_bc(adf, mod, g)(y, 2.0), L.model.impose_dirichlet_bc(adf)(mod)(y, 1.0), L.model.impose_neumann_bc(adf, mod, g)(y, 3.0), L.model.impose_neumann_bc(adf, argnums_h=A([0]))(mod)(y, 1.0)


def _adf(L, v):
    s = L.r_fun.sphere(1.0 + 0.1 * v)

    def adf(x):
        point("adf")
        return s(x)

    return U(adf)


def _imposed(L, v):
    def mod(y, s=1.0):
        point("model")
        return jnp.sum(jnp.sin(y)) * s

    def g(y):
        point("bc")
        return jnp.sum(y) * (1 + v)

    M = L.model
    a = _adf(L, v)
    U(mod), U(g)
    return [M.impose_dirichlet_bc(a, mod, g), M.impose_neumann_bc(a, mod, g), M.impose_dirichlet_bc(a)(mod), M.impose_ic(g, lambda y, t: mod(y, t), t0=0.1 * v)]


@entry("model.imposed", make=_imposed)
def _(L, obj, x, A):
    y = A(arr("im", x, shape=(2,)))
    return [f(y) for f in obj[:3]] + [obj[3](y, 0.2 + x)]


@entry("model.imposed_derivatives", make=lambda L, v: [L.calc.laplace(f) for f in _imposed(L, v)[:2]])
def _(L, obj, x, A):
    y = A(arr("imd", x, shape=(2,)))
    return [f(y) for f in obj]


@entry("model.argnums", make=_adf)
def _(L, adf, x, A):
    """Positions given as lists, including the time and the model's own argument."""
    def mod(y, t, z):
        point("model")
        return jnp.sum(jnp.sin(y)) * t + jnp.sum(z)

    def m0(y, t):
        point("m0")
        return jnp.sum(y) - t

    def g(z, y):
        point("bc")
        return jnp.sum(z * y)

    y, z, M = A(arr("an", x, shape=(2,))), A(arr("anz", x, shape=(2,))), L.model
    rows = [M.impose_ic(U(m0), U(mod), argnums_m0=A([0, 1])), M.impose_ic(m0, argnums_m0=A((2, 1)), argnum_t=1)(mod),
            M.impose_dirichlet_bc(adf, mod, U(g), argnums_adf=A([0]), argnums_g=A([2, 0])), M.impose_dirichlet_bc(adf, mod, g, argnums_adf=A([2]), argnums_g=A([0, 2])),
            M.impose_neumann_bc(adf, mod, g, argnums_adf=A([2]), argnum_model=2, argnums_h=A([2, 0]))]
    return [m(y, 0.3 * x, z) for m in rows] + [rows[0](y, 0.1, z)]


# ------------------------------------------------------------------ ode
@entry("ode.odeint", shareable=False, heavy=True)
def _(L, v, x, A):
    def df(y, t, k):
        point("dynamics")
        return jax.tree.map(lambda a: -k * a + jnp.sin(t), y)

    y = A({"a": jnp.asarray(arr("ode", x, shape=(2 + x,))), "b": jnp.asarray(arr("odeb", x))})
    ts = A(jnp.asarray(np.linspace(0, 1, 4 + x)))
    return L.ode.odeint(df, y, ts, 1.0 + v, unroll=1 + v, **({"method": L.ode.explicit_euler} if v == 1 else {}))


@entry("ode.steps", shareable=False)
def _(L, v, x, A):
    def df(y, t, k):
        point("dynamics")
        return -k * y + t

    y = A(arr("odes", x, shape=(2 + x,)))
    return L.ode.rk4(df, y, 0.1, 0.2, 1.0 + v), L.ode.explicit_euler(df, y, 0.1, 0.2, 1.0 + v)


def _dynamics(L, v):
    def df(y, t, k=1.0):
        point("dynamics")
        return jax.tree.map(lambda a: -(k + v) * a * jnp.cos(t), y)

    return U(df)


@entry("ode.shared_dynamics", make=_dynamics, heavy=True)
def _(L, df, x, A):
    y = A(arr("osd", x, shape=(2,)))
    ts = A(np.linspace(0, 1, 4, dtype=np.float32) * (1 + x))
    return L.ode.odeint(df, jnp.asarray(y), jnp.asarray(ts), *((A(arr("osk", x)),) if x else ()))


# ------------------------------------------------------------------ quaternions
@entry("quaternions.algebra", calls_back=False, concrete=True, make=lambda L, v: L.quaternions.Quaternion(1.0 + v, tuple(arr("q", v, shape=(3,)).tolist())))
def _(L, q, x, A):
    Q = L.quaternions
    p = Q.Quaternion(A(arr("qa", x)), A(arr("qi", x, shape=(3,))))
    g = lambda z: (z.real, z.imag)
    return g(q * p), g(p * q), g(q + p), g(q - p), g(q / p), g(q**2.0), g(-q), abs(q), g(Q.quanternion_exp(p)), g(Q.quanternion_log(q)), g(q.reciprocal()), g(q), bool(q == q), bool(q == p)


@entry("quaternions.scalars", calls_back=False, concrete=True, make=lambda L, v: L.quaternions.Quaternion(1.0 + v, tuple(arr("qs", v, shape=(3,)).tolist())))
def _(L, q, x, A):
    Q = L.quaternions
    s = float(A(arr("qss", x, lo=0.5, hi=2)))
    p = Q.Quaternion(A(arr("qsa", x)), A(arr("qsi", x, shape=(3,))))
    g = lambda z: (z.real, z.imag)
    return g(q + s), g(s + q), g(q - s), g(q * s), g(s * q), g(q / s), g(s**q), Q.arg(p), Q.sgn(p.imag), g(Q.quaternion_left_div(p, q)), g(p.conj()), g(Q.Quaternion.zero_quaternion()), jax.tree.leaves(q), jax.jit(lambda a, b: g(a * b))(p, q)


@entry("quaternions.rotation", calls_back=False, make=lambda L, v: L.quaternions.from_axis_angle(0.3 + v, (0.0, 0.6, 0.8)) if v else L.quaternions.from_euler_angles((0.1, 0.2, 0.3)))
def _(L, q, x, A):
    y = A(arr("qr", x, shape=(3,)))
    return L.quaternions.quaternion_rotation(y, q), L.quaternions.quaternion_reflection(y, A(arr("qn", x, shape=(3,)))), jax.vmap(lambda z: L.quaternions.quaternion_rotation(z, q))(A(arr("qrb", x, shape=(2 + x, 3))))


# ------------------------------------------------------------------ r_fun
def user_shape(v):
    r = 1.0 + 0.3 * v

    def adf(x):
        point("shape")
        return r - jnp.sum(x**2)

    return U(adf)


def system(L, v):
    R = L.r_fun
    return [R.RAlpha(0.5), R.RP(4), R.RhoBlending(0.3), R.r0, R.RAlphaM(2.0, 0.0)][v % 5]


@entry("r_fun.boolean", make=lambda L, v: (system(L, v), user_shape(v)))
def _(L, obj, x, A):
    R, s = obj
    c = L.r_fun.cuboid(A([1.0, 0.5 + x]), centering=True, r_system=R)
    y = A(arr("rb", x, shape=(2,)))
    return [op(s, c)(y) for op in (R.union, R.intersection, R.difference, R.xor, R.equivalence, R.implication)] + [R.negate(s)(y)]


@entry("r_fun.systems", make=lambda L, v: (system(L, 2 + v), user_shape(v), L.r_fun.RAlphaM(1.0 + v, -0.3 + 0.6 * v)))
def _(L, obj, x, A):
    R, s, R2 = obj
    y = A(arr("rsy", x, shape=(2,)))
    e = L.r_fun.ellipsoid(A([1.0, 0.7 + 0.1 * x]))
    return [op(s, e)(y) for op in (R.union, R.intersection, R.difference)] + [op(s, R.negate(e))(y) for op in (R2.union, R2.intersection)] + [R2.conjunction(*y), R.disjunction(*y)]


@entry("r_fun.scaled", make=lambda L, v: [L.r_fun.scale(user_shape(v), np.array([1.5 + v])), L.r_fun.scale_without_normalization(user_shape(v), np.array([1.0 + v, 0.5])), L.r_fun.cuboid(np.array([1.0 + v, 0.5])), L.r_fun.cuboid(np.array([1.0, 0.5 + v]), centering=True), L.r_fun.sphere(1.0 + v)])
def _(L, obj, x, A):
    y = jnp.asarray(A(arr("rsc", x, shape=(2,))))
    return [f(y) for f in obj]


@entry("r_fun.motions2d", make=lambda L, v: (lambda R, s: R.translate(R.rotate2d(R.scale(R.reflect(s, np.array([1.0, 0.5])), 1.5 + v), 0.4, (0.1 * v, 0.2)), [0.3, 0.1]))(L.r_fun, user_shape(v)))
def _(L, adf, x, A):
    y = A(arr("rm", x, shape=(2,)))
    return adf(jnp.asarray(y)), jax.grad(adf)(jnp.asarray(y)), L.r_fun.revolution(adf, axis=x % 2)(jnp.asarray(A(arr("rv", x, shape=(3,))))), L.r_fun.project(adf, np.array([0.0, 1.0]), np.array([0.1, 0.2]))(jnp.asarray(y))


@entry("r_fun.motions3d", make=lambda L, v: L.r_fun.rotate3d(user_shape(v), 0.3 + v, (0.0, 0.6, 0.8), (0.1, 0.0, 0.2)) if v else L.r_fun.rotate3d(user_shape(v), (0.1, 0.2, 0.3)))
def _(L, adf, x, A):
    return adf(jnp.asarray(A(arr("rm3", x, shape=(3,)))))


@entry("r_fun.normalize", make=lambda L, v: (L.r_fun.normalize_1st_order(user_shape(v)), L.r_fun.ellipsoid(A0([1.0, 0.5 + v])), L.r_fun.cylinder(1.0 + v), L.r_fun.cube(1.0 + v), L.r_fun.sphere(0.5 + v)))
def _(L, obj, x, A):
    y = jnp.asarray(A(arr("rn", x, shape=(2,))))
    return [f(y) for f in obj]


def A0(x):
    return x


@entry("r_fun.compose", make=lambda L, v: L.r_fun.compose(lambda a, b, R=system(L, v): (point("compose"), R.conjunction(a, b))[1])(user_shape(v), user_shape(v + 1), L.r_fun.cuboid([1.0, 2.0])))
def _(L, adf, x, A):
    return adf(jnp.asarray(A(arr("rc", x, shape=(2,)))))


# ------------------------------------------------------------------ sampling, batches
@entry("sampling.rejection", shareable=False, heavy=True)
def _(L, v, x, A):
    def pdf(s):
        point("pdf")
        return 1.0 + 0.5 * v * jnp.sin(6 * s["u"][0])

    def prop(k):
        point("proposal")
        return {"u": jax.random.uniform(k, (2,)), "k": k}

    return L.sampling.rejection_sampling(A(jax.random.PRNGKey(x)), U(pdf), U(prop), 3 + 2 * x, 3)


@entry("opt.batches", concrete=True, calls_back=False)
def _(L, v, x, A):
    X = A({"a": arr("ob", v, shape=(10 + v, 2)), "b": [np.arange(10 + v)]})
    k = A(jax.random.PRNGKey(x))
    return L.opt.batches_without_replacement(k, X, 3 + x), L.opt.batches_with_replacement(k, X, 2 + x, 3, bool(v % 2))


@entry("opt.iterator", concrete=True, shareable=False)
def _(L, v, x, A):
    X = A({"a": np.arange(8) + 100 * v, "b": arr("oi", v, shape=(8, 2))})

    def batch_fn(key):
        point("batch_fn")
        return L.opt.batches_without_replacement(key, X, 3)

    out = []
    for b in L.opt.make_iterator(A(jax.random.PRNGKey(x)), 2, batch_fn, add_rng=bool(v)):
        point("consumer")
        out.append(b)
    return out


# ------------------------------------------------------------------ spline
@entry("spline.basis", calls_back=False, concrete=True)
def _(L, v, x, A):
    g = A(np.asarray(L.spline.make_grid(-2.0, 2.0 + v, 1.0 + 0.5 * v, 9)))
    return g, L.spline.basis(A(arr("sb", x, shape=(3 + x,), lo=-1.5, hi=1.5)), g, degree=1 + v)


@entry("spline.activation", make=lambda L, v: L.spline.SplineActivation(nodes=9 + v, degree=2 + v % 2, activation=act(v), parameterize_grid=bool(v % 2), coef_init=jax.nn.initializers.normal(0.3)))
def _(L, m, x, A):
    y = A(arr("sa", x, shape=(2 + x, 3)))
    p = m.init(A(jax.random.PRNGKey(x)), y)
    return p, m.apply(A(p), y)


def _source(L, v):
    n = 8 + v

    def batch_fn(key):
        point("batch_fn")
        return L.opt.batches_without_replacement(key, {"i": np.arange(n), "x": np.arange(2.0 * n).reshape(n, 2)}, 3)

    return batch_fn


@entry("opt.shared_source", concrete=True, make=_source)
def _(L, fn, x, A):
    out = []
    for b in L.opt.make_iterator(A(jax.random.PRNGKey(x)), 1 + x, fn, add_rng=bool(x % 2)):
        point("consumer")
        out.append(b)
    return out


# ------------------------------------------------------------------ surface integrals
def _par(L, v):
    def par(u):
        point("parametrization")
        return jnp.stack([u[..., 0], u[..., 1] * (1 + v), (0.3 + 0.1 * v) * u[..., 0] * u[..., 1]], axis=-1)

    return U(par)


@entry("surface.shared_parametrization", make=_par, heavy=True)
def _(L, par, x, A):
    S = L.surface_integral
    u = A((np.linspace(1, 0, 4) if x == 1 else np.linspace(0, 1 + x, 4)).astype(np.float32))
    w = A(np.linspace(0, 1, 3).astype(np.float32)[:: -1 if x == 2 else 1].copy())

    def f(r, c):
        point("integrand")
        return jnp.sum((r - c) ** 2)

    return S.midpoints(par, u, w), S.integrate_surface_elements(U(f), par, u, w, method=L.integrate.trap)


# ------------------------------------------------------------------ surface integrals
@entry("surface.integral", shareable=False, heavy=True)
def _(L, v, x, A):
    S = L.surface_integral

    def par(u):
        point("parametrization")
        return jnp.stack([u[0], u[1], (0.3 + 0.1 * v) * u[0] * u[1]])

    def f(r, *a):
        point("integrand")
        return jnp.sum(r**2) + (jnp.sum(a[0]) if a else 0.0)

    u, w = A(jnp.linspace(0, 1, 3 + x)), A(jnp.linspace(0, 1, 3))
    meth = L.integrate.gauss(2)
    return S.integrate_surface(f, par, u, w, method=meth), S.integrate_surface_elements(f, par, u, w, method=meth), S.midpoints(par, u, w)


@entry("surface.tensors", shareable=False, heavy=True)
def _(L, v, x, A):
    S = L.surface_integral

    def par(u):
        point("parametrization")
        return jnp.stack([u[..., 0], u[..., 1], (0.3 + 0.1 * v) * u[..., 0] * u[..., 1]], axis=-1)

    def ch(r, k=1.0):
        point("charge")
        return k * jnp.sin(r)

    u = A(jnp.linspace(0, 1, 3 + x))
    s, ds = S.source_tensor(jnp.asarray(A(arr("st", x, shape=(3,), lo=2, hi=3))), par, u, u, method=L.integrate.gauss(2), order=1)
    c = S.charge_tensor(ch, par, u, u, 2.0 + v, order=1)
    return s, ds, c, S.single_layer_potential(s, c)


@entry("surface.charges_with_parameters", make=lambda L, v: ((L.surface_integral.scalar_potential_charge if v % 2 else L.surface_integral.vector_potential_charge)(user_shape(v), vector_field(v), (lambda y, k=1.0: (point("phi1"), k * (jnp.sum(y**2) if v % 2 else y * jnp.roll(y, 1)))[1]), normalized=v < 2)))
def _(L, obj, x, A):
    y = jnp.asarray(A(arr("scp", x, shape=(3,))))
    return obj(y, (), (A(arr("sck", x)),)) if x else obj(y, (A(arr("scm", x)),), ())


@entry("surface.potentials", make=lambda L, v: v, shareable=False, heavy=True)
def _(L, v, x, A):
    S = L.surface_integral

    def par(u):
        point("parametrization")
        return jnp.stack([u[..., 0], u[..., 1], (0.3 + 0.1 * v) * u[..., 0] * u[..., 1]], axis=-1)

    def ch(r):
        point("charge")
        return jnp.stack([r[0], r[1] * v, 1.0 + r[2]])

    u = A(jnp.linspace(0, 1, 3))
    y = jnp.asarray(A(arr("sp", x, shape=(3,), lo=2, hi=3)))
    s = S.source_tensor(y, par, u, u, method=L.integrate.gauss(2), order=v % 2, compute_jacfwd=False)
    s2, ds = S.source_tensor(y, par, u, u, method=L.integrate.gauss(1 + v), order=0)
    c = S.charge_tensor(ch, par, u, u, order=0)
    return s, s2, c, S.single_layer_potential(s2, c), S.curl_single_layer_potential(ds, c)


@entry("surface.charges", make=lambda L, v: (L.surface_integral.scalar_potential_charge if v else L.surface_integral.vector_potential_charge)(user_shape(v), vector_field(v), (lambda y: (point("phi1"), jnp.sum(y**2))[1]) if v else (lambda y: (point("A1"), y * jnp.roll(y, 1))[1]), normalized=False))
def _(L, obj, x, A):
    return obj(jnp.asarray(A(arr("sc", x, shape=(3,)))))


# ------------------------------------------------------------------ trust region
def objective(v):
    def f(p, data):
        point("objective")
        a, b = p["a"], p["b"]
        return jnp.sum((a - data) ** 2 * (1 + v)) + 0.1 * jnp.sum(jnp.cos(b)) + jnp.sum(b**2)
    return U(f)


@entry("tr.run", shareable=False, heavy=True)
def _(L, v, x, A):
    s = L.opt.TR(objective(v), maxiter=4, tol=1e-4, approx_hvp=v == 1, damping_factor=0.1 if v == 2 else None)
    p = A({"a": jnp.asarray(arr("tra", x, shape=(2,))), "b": jnp.asarray(arr("trb", x, shape=(1 + x,)))})
    r = s.run(p, A(jnp.asarray(arr("trd", x, shape=(2,)))))
    return r.params, r.state.value, r.state.grad, r.state.iter_num, r.state.tr_radius


@entry("tr.shared_run", concrete=True, make=lambda L, v: L.opt.TR(*[
    ((lambda p, data: (objective(0)(p, data), {"d": data})),), (jax.value_and_grad(objective(1)),), (objective(2),)][v], has_aux=v == 0, value_and_grad=v == 1,
    maxiter=3, tol=1e-4, min_tr_radius=0.3 if v == 2 else 1e-6, init_tr_radius=0.5 + v), heavy=True)
def _(L, s, x, A):
    p = A({"a": jnp.asarray(arr("tra", x, shape=(2,))), "b": jnp.asarray(arr("trb", x, shape=(1 + x % 2,)))})
    d = A(jnp.asarray(arr("trd", x, shape=(2,))))
    r = s.run(p, d)
    st = s.init_state(r, d)
    w = s.run(A(jax.tree.map(jnp.asarray, r)), data=d) if x == 2 else s.update(r, st, d)
    return r, w, s.optimality_fun(p, d)


@entry("tr.updates", concrete=True, make=lambda L, v: L.opt.TR(objective(v), maxiter=4, tol=1e-4, jit=False, unroll=True, maxiter_steihaug=3), shareable=True, heavy=True)
def _(L, s, x, A):
    p = A({"a": jnp.asarray(arr("tra", x, shape=(2,))), "b": jnp.asarray(arr("trb", x, shape=(1 + x,)))})
    d = A(jnp.asarray(arr("trd", x, shape=(2,))))
    st = s.init_state(p, d)
    out = []
    for _ in range(2):
        p, st = s.update(p, A(st), d)
        point("between_updates")
        out.append((p, st.value, st.error, st.tr_radius))
    return out


@entry("tr.steihaug", concrete=True, shareable=False)
def _(L, v, x, A):
    H = arr("sh", x, shape=(2 + x, 2 + x))
    H = H @ H.T + np.eye(2 + x, dtype=np.float32) * (1 - v)

    def hvp(p):
        point("hvp")
        return H @ p

    r = L.tr.steihaug(jnp.asarray(A(arr("shg", x, shape=(2 + x,)))), hvp, 1.0, 1e-3, maxiter=4, jit=v == 0, unroll=v != 0)
    return r.p, r.iter_num, r.converged, r.step_length


def leaves(tree):
    """result -> list of numpy arrays / plain values"""
    out = []
    for v in jax.tree.leaves(tree, is_leaf=lambda z: z is None):
        if v is None:
            out.append(None)
        elif isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
            out.append(np.asarray(jax.random.key_data(v)))
        else:
            out.append(np.asarray(v))
    return out
