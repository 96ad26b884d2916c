"""C11, C12: ODE integration under disturbed, failing dynamics; crashes and resumption at time points."""
from __future__ import annotations

import contextlib

import jax
import jax.numpy as jnp
import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, InjectedFault, Scenario, bits_equal, expect, lib

_S = jax.ShapeDtypeStruct
NW = 4          # disturbance windows
NS = 3          # forcing terms

TREES = {
    "scalar": lambda f: f(),
    "vec": lambda f: f(3),
    "dict": lambda f: {"q": f(2), "p": f(2)},
    "nested": lambda f: ({"a": f(2, 2)}, [f(), f(3)]),
    "one": lambda f: (f(1),),
    "complex": lambda f: {"psi": f(2) + 0j, "r": f()},
    "deep": lambda f: {"b": [{"x": f(2)}, (), None], "a": ((f(1, 2),),)},
}


def cplx(v):
    return np.iscomplexobj(v)


def size(v):
    return v.size * (2 if cplx(v) else 1)


def template(kind):
    return TREES[kind](lambda *s: np.zeros(s))


def flat(tree, axis0=False):
    """numpy: leaves -> [n] or [T, n]; complex leaves contribute real and imaginary parts"""
    def one(v):
        v = np.asarray(v)
        v = v.reshape(v.shape[0], -1) if axis0 else v.reshape(1, -1)
        return np.concatenate([v.real, v.imag], axis=1).astype(np.float64) if cplx(v) else v.astype(np.float64)

    r = np.concatenate([one(v) for v in jax.tree.leaves(tree)], axis=1)
    return r if axis0 else r[0]


def parts(xp, kind, z):
    leaves, td = jax.tree.flatten(template(kind))
    out, o = [], 0
    for v in leaves:
        x = z[o:o + size(v)]
        x = x[:v.size] + 1j * x[v.size:] if cplx(v) else x
        out.append(xp.reshape(x, v.shape))
        o += size(v)
    return jax.tree.unflatten(td, out)


def unflat(kind, z, dtype):
    z = np.asarray(jnp.asarray(z, dtype))
    return jax.tree.map(jnp.asarray, parts(np, kind, z))


def pieces(kind, z):
    """jnp: [n] -> tree"""
    return parts(jnp, kind, z)


def whole(kind, F):
    """A complex number with one NaN part is NaN as a whole: complex arithmetic may spread it to the other part."""
    F, o = np.array(F), 0
    for v in jax.tree.leaves(template(kind)):
        if cplx(v):
            a, b = F[..., o:o + v.size], F[..., o + v.size:o + 2 * v.size]
            bad = np.isnan(a) | np.isnan(b)
            a[bad], b[bad] = np.nan, np.nan
        o += size(v)
    return F


def rhs(xp, z, t, p, w):
    """The dynamics: stable linear part, saturating coupling, forcing, pulses and NaN outages in time windows."""
    d = p["A"] @ z + p["b"] * xp.tanh(p["B"] @ z)
    d = d + p["c"] @ xp.sin(p["w"] * t + p["ph"])
    on = (w["lo"] <= t) & (t < w["hi"])
    d = d + w["amp"].T @ xp.where(on, 1.0, 0.0).astype(d.dtype)
    bad = xp.any((on & (w["nan"] > 0))[:, None] & (w["mask"] > 0), axis=0)
    return xp.where(bad, xp.nan, d).astype(d.dtype)


def params_of(plan, n, f):
    r = np.random.RandomState(plan["dyn"] % 2**32)
    Q = r.randn(n, n)
    A = -0.4 * np.eye(n) + 0.5 * (Q - Q.T) / max(1, n)
    p = {"A": A, "b": 0.5 * r.randn(n), "B": r.randn(n, n) * 0.5, "c": r.randn(n, NS), "w": plan["freq"] * (0.5 + r.rand(NS)), "ph": 6 * r.rand(NS)}
    return {k: f(v) for k, v in p.items()}


def windows_of(ws, n, f):
    lo, hi, amp, nan, mask = [np.zeros(NW), np.zeros(NW), np.zeros((NW, n)), np.zeros(NW), np.zeros((NW, n))]
    for i, x in enumerate(ws[:NW]):
        r = np.random.RandomState(x["seed"] % 2**32)
        lo[i], hi[i] = x["lo"], x["hi"]
        if x["kind"] == "pulse":
            amp[i] = x["size"] * r.randn(n)
        else:
            nan[i] = 1
            mask[i] = (r.rand(n) < 0.6)
            mask[i][r.randint(n)] = 1
    return {k: f(v) for k, v in dict(lo=lo, hi=hi, amp=amp, nan=nan, mask=mask).items()}


def ref_step(method, z, t, dt, p, w):
    f = lambda z, t: rhs(np, z, t, p, w)
    if method == "explicit_euler":
        return z + dt * f(z, t)
    if method == "user":
        return z + dt * f(z + dt / 2 * f(z, t), t + dt / 2)
    k1 = dt * f(z, t)
    k2 = dt * f(z + k1 / 2, t + dt / 2)
    k3 = dt * f(z + k2 / 2, t + dt / 2)
    k4 = dt * f(z + k3, t + dt)
    return z + (k1 + 2 * k2 + 2 * k3 + k4) / 6


def user_method(df, y, t, dt, *args):
    """A user's own scheme: explicit midpoint."""
    k = df(y, t, *args)
    k = df(jax.tree.map(lambda a, b: a + dt / 2 * b, y, k), t + dt / 2, *args)
    return jax.tree.map(lambda a, b: a + dt * b, y, k)


def stage_times(method, ts):
    ts = np.asarray(ts, dtype=np.float64)
    if method == "explicit_euler":
        return ts[:-1]
    if method == "user":
        return np.concatenate([ts[:-1], (ts[1:] + ts[:-1]) / 2])
    return np.concatenate([ts, (ts[1:] + ts[:-1]) / 2])


class Server:
    """Host side dynamics: evaluation log and one-shot crashes."""

    def __init__(self, dtype):
        self.dtype = dtype
        self.crash = 0
        self.n = 0
        self.err = None

    def __call__(self, z, t, p, w):
        self.n += 1
        if self.crash and self.n >= self.crash:
            raise InjectedFault(MARK)
        try:
            g = lambda tr: {k: np.asarray(v, np.float64) for k, v in tr.items()}
            return np.asarray(rhs(np, np.asarray(z, np.float64), float(t), g(p), g(w)), self.dtype)
        except Exception as e:
            self.err = repr(e)
            raise


class Ode(Scenario):
    components_real = ["magpi.ode.odeint, rk4, explicit_euler", "lax.scan, jax.checkpoint, JAX/XLA CPU"]
    components_stub = ["the dynamics (user function): pure JAX, or host-side service reached by jax.pure_callback"]
    list_fields = ("cuts", "windows", "pre")
    runs_per_block = 14
    blocks = {"quick": 80, "thorough": 640}

    def gen_block(self, rng, tier):
        b = dict(kind=rng.choice(list(TREES)), method=rng.choice(["rk4", "rk4", "rk4", "default", "default", "explicit_euler", "explicit_euler", "user"]), unroll=rng.choice([1, 1, 1, 2, 5, 16]),
                    x64=rng.random() < 0.4, host=rng.random() < 0.3, n=rng.choice([1, 2, 2, 3, 3, 5, 5, 8, 8, 12, 12, 12, 400, 1500]), mode=rng.choice(["jit"] * 9 + ["eager"]), alt=rng.choice([1, 2, 3]))
        b["t32"] = b["x64"] and rng.random() < 0.25        # time points in single, state in double precision
        if b["n"] > 12:
            b.update(mode="jit", host=False, long=True)
        return b

    def gen_ts(self, rng, n):
        pat = rng.choice(["uniform", "random", "random", "reversed", "repeat", "zigzag", "jump", "offset", "int", "tiny"])
        h = rng.choice([0.02, 0.1, 0.3]) if n <= 12 else rng.choice([0.004, 0.01])
        if n > 12 and pat == "int":
            pat = "uniform"
        if pat == "uniform":
            ts = [i * h for i in range(n)]
        elif pat == "int":
            ts = [float(i) for i in range(n)]
        elif pat == "tiny":
            ts = [0.5 + i * 1e-3 * (1 + rng.random()) for i in range(n)]
        else:
            ts, t = [], rng.choice([0.0, 0.0, -1.0, 0.7])
            for i in range(n):
                ts.append(t)
                d = h * (0.3 + 1.4 * rng.random())
                if pat == "repeat" and rng.random() < 0.4:
                    d = 0.0
                if pat == "zigzag" and rng.random() < 0.3:
                    d = -d
                if pat == "jump" and rng.random() < 0.25:
                    d += rng.choice([1.0, -1.0])
                t += d
            if pat == "reversed":
                ts = ts[::-1]
            if pat == "offset":
                o = rng.choice([10.0, -30.0, 100.0])
                ts = [x + o for x in ts]
        return pat, [float(np.float32(x)) for x in ts]

    def gen_common(self, rng, b):
        pat, ts = self.gen_ts(rng, b["n"])
        lo, hi = min(ts), max(ts)
        span = max(hi - lo, 0.1)
        return dict(pat=pat, ts=ts, dyn=rng.randrange(2**31), y=rng.randrange(2**31), freq=rng.choice([0.0, 1.0, 3.0, 8.0]), yscale=rng.choice([0.0, 1.0, 1.0, 1.0, 10.0, 1e5]),
                    windows=[]), lo, hi, span

    def fit(self, ws, b, ts, margin_to=None):
        """Move window edges off the evaluation times (float32 time arithmetic must not decide them)."""
        if len(ts) < 2:
            return ws
        st = np.concatenate([stage_times("rk4", ts), np.asarray(ts, float)])
        tol = 2e-4 * max(1.0, float(np.max(np.abs(st))))
        if b["x64"] and not b["t32"]:
            tol *= 1e-2
        out = []
        for w in ws:
            w = dict(w)
            for e in ("lo", "hi"):
                x, k = w[e], 0
                while np.min(np.abs(st - x)) < tol and k < 400:
                    x += tol * 1.37
                    k += 1
                w[e] = float(x)
            if w["lo"] < w["hi"]:
                out.append(w)
        return out

    # ------------------------------------------------------------------
    def x64(self, env):
        return jax.enable_x64(True) if env["block"]["x64"] else contextlib.nullcontext()

    def setup(self, block):

        magpi = _env.load_magpi()
        n = sum(size(v) for v in jax.tree.leaves(template(block["kind"])))
        dtype = jnp.float64 if block["x64"] else jnp.float32
        srv = Server(np.float64 if block["x64"] else np.float32)
        kind = block["kind"]
        env = dict(block=block, magpi=magpi, n=n, dtype=dtype, srv=srv, fns={}, tol=1e-9 if block["x64"] and not block["t32"] else 3e-5, drift=10.0 if block.get("long") else 1.0)

        def df(y, t, p, w):
            z = jnp.concatenate([jnp.concatenate([jnp.ravel(v.real), jnp.ravel(v.imag)]) if jnp.iscomplexobj(v) else jnp.ravel(v) for v in jax.tree.leaves(y)])
            if block["host"]:
                d = jax.pure_callback(srv, _S((n,), dtype), z, jnp.asarray(t, dtype), p, w)
            else:
                d = rhs(jnp, z, jnp.asarray(t, dtype), p, w)
            return pieces(kind, d)

        env["df"] = df
        return env

    def solve(self, env, y, ts, p, w, mode=None, unroll=None, crash=0):
        b = env["block"]
        mode = mode or b["mode"]
        unroll = unroll or b["unroll"]
        kw = {} if b["method"] == "default" else {"method": user_method if b["method"] == "user" else getattr(env["magpi"].ode, b["method"])}
        call = lambda y, ts, p, w: env["magpi"].ode.odeint(env["df"], y, ts, p, w, unroll=unroll, **kw)
        if mode == "jit":
            call = env["fns"].setdefault(unroll, jax.jit(call))
        srv = env["srv"]
        srv.n, srv.crash, srv.err = 0, crash, None
        try:
            out = lib(call, y, ts, p, w)
            jax.block_until_ready(out)
        finally:
            if srv.err:
                raise RuntimeError(srv.err)
        out = jax.tree.map(np.asarray, out)
        expect(jax.tree.structure(out) == jax.tree.structure(y), "wrong-structure", f"result tree {jax.tree.structure(out)} for state tree {jax.tree.structure(y)}")
        for a, v in zip(jax.tree.leaves(out), jax.tree.leaves(y)):
            expect(a.shape == (len(ts),) + v.shape, "wrong-shape", f"{len(ts)} time points, state leaf {v.shape}: result leaf {a.shape}")
            expect(a.dtype == v.dtype, "wrong-dtype", f"state dtype {v.dtype}, result dtype {a.dtype}")
        return out

    def inputs(self, env, plan):
        b = env["block"]
        dt = env["dtype"]
        cast = lambda v: jnp.asarray(v, dt)
        r = np.random.RandomState(plan["y"] % 2**32)
        y = unflat(b["kind"], plan["yscale"] * r.randn(env["n"]), dt)
        ts = jnp.asarray(plan["ts"], jnp.int32 if plan["pat"] == "int" else (jnp.float32 if b["t32"] else dt))
        return y, ts, params_of(plan, env["n"], cast), windows_of(plan["windows"], env["n"], cast)

    def close(self, env, a, b_, what, cls, k=1.0):
        """[T, n] arrays equal up to rounding (per row, against the scale of the trajectory)."""
        a, b_ = whole(env["block"]["kind"], a), whole(env["block"]["kind"], b_)
        scale = 1.0 + np.nanmax(np.abs(np.where(np.isfinite(b_), b_, 0.0)), initial=0.0)
        na, nb = np.isnan(a), np.isnan(b_)
        bad = (na != nb) | (~na & ~nb & ~(np.abs(a - b_) <= k * env["tol"] * scale))
        if bad.any():
            i = int(np.argwhere(bad.any(axis=1))[0][0])
            expect(False, cls, f"{what}: first difference at state {i}: {a[i].tolist()} but {b_[i].tolist()} expected")

    def count_windows(self, env, plan, ctx):
        st = stage_times(env["block"]["method"], plan["ts"])
        for w in plan["windows"]:
            k = int(np.sum((w["lo"] <= st) & (st < w["hi"])))
            if k:
                ctx.fault("dynamics_" + w["kind"], k)
        if plan["pat"] in ("reversed", "repeat", "zigzag", "jump", "offset", "int"):
            ctx.probe("time_" + plan["pat"])
        for k, on in (("complex_state", env["block"]["kind"] == "complex"), ("user_method", env["block"]["method"] == "user"), ("mixed_precision", env["block"]["t32"])):
            if on:
                ctx.probe(k)
        if len(plan["ts"]) > 100:
            ctx.probe("long_list")
        if len(plan["ts"]) == 1:
            ctx.probe("one_time_point")
        ctx.sim_time += float(np.sum(np.abs(np.diff(plan["ts"]))))


class C11(Ode):
    id = "C11"
    runs_per_block = 20
    blocks = {"quick": 40, "thorough": 320}
    rule = "a run is one integration with seeded dynamics and time points, and the same integration cut, crashed and resumed at seeded points; non-trivial if at least one crash, cut or disturbance occurred"
    measure = "digest of (time pattern, cut set, crash placement)"
    expected_probes = ("crash", "cut", "time_reversed", "time_repeat", "time_zigzag", "time_jump", "time_int", "prefix", "extended", "single_point", "every_point", "unroll_changed", "repeated_point", "mode_changed", "long_list", "one_time_point", "complex_state", "user_method", "mixed_precision")

    def gen_run(self, rng, b, tier):
        plan, lo, hi, span = self.gen_common(rng, b)
        n = b["n"]
        if b.get("long"):
            cuts = sorted(set(rng.choice([n // 4, n // 2, 3 * n // 4, n - 1]) for _ in range(2)))
        elif rng.random() < 0.3:
            cuts = list(range(n))
        else:
            cuts = sorted(rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3])))
        plan["cuts"] = [dict(at=c, crash=rng.choice([0, 0, 1, 2, 5, 9]), unroll=rng.choice([0, 0, 0, 0, b["alt"]]), mode=rng.choice([""] * 24 + ["eager"]) if not b.get("long") else "") for c in cuts]
        plan["prefix"] = rng.randrange(1, n + 1) if not b.get("long") else rng.choice([n // 2, n - 1])
        ext = []
        t = plan["ts"][-1]
        d = -1 if plan["pat"] == "reversed" else 1
        for _ in range(rng.choice([1, 1, 2, 4]) if not b.get("long") else 2):
            t += d * rng.choice([0.05, 0.2, 1.0])
            ext.append(float(np.float32(round(t)) if plan["pat"] == "int" else np.float32(t)))
        plan["ext"] = ext
        ws = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = lo + rng.random() * span
            ws.append(dict(kind="pulse", lo=a, hi=a + rng.random() * span, size=rng.choice([0.5, 3.0]), seed=rng.randrange(2**31)))
        plan["windows"] = self.fit(ws, b, plan["ts"] + ext)
        return plan

    def execute(self, env, plan, ctx: Ctx):

        with self.x64(env):
            self._execute(env, plan, ctx)

    def _execute(self, env, plan, ctx):
        b = env["block"]
        y, ts, p, w = self.inputs(env, plan)
        n = len(plan["ts"])
        self.count_windows(env, plan, ctx)
        full = self.solve(env, y, ts, p, w)
        F = flat(full, True)
        expect(all(bits_equal(a[0], v) for a, v in zip(jax.tree.leaves(full), jax.tree.leaves(y))), "first-state", "the first state is not the initial value")
        expect(bool(np.isfinite(F).all()), "not-finite", "finite dynamics gave non-finite states")
        for k in range(n - 1):
            if plan["ts"][k] == plan["ts"][k + 1]:
                ctx.probe("repeated_point")
                self.close(env, F[k + 1:k + 2], F[k:k + 1], f"time point {k + 1} repeats time point {k}", "repeated-point")
        # ---- crash / resume
        got = [F[:1]]
        cur, at = y, 0
        stops = [c for c in plan["cuts"] if 0 <= c["at"] < n]
        for c in stops + [dict(at=n - 1, crash=0, unroll=0, mode="")]:
            e = max(c["at"], at)
            seg = ts[at:e + 1]
            kw = dict(mode=c["mode"] or None, unroll=c["unroll"] or None)
            if c["crash"] and b["host"] and e > at:
                try:
                    self.solve(env, cur, seg, p, w, crash=c["crash"], **kw)
                    ctx.probe("crash_after_end")
                except Injected:
                    ctx.fault("crash")
            part = self.solve(env, cur, seg, p, w, **kw)
            if e == at:
                ctx.probe("single_point")
            if c["unroll"]:
                ctx.probe("unroll_changed")
            if c["mode"]:
                ctx.probe("mode_changed")
            ctx.fault("cut")
            ctx.steps += 1
            P = flat(part, True)
            self.close(env, P[:1], F[at:at + 1], f"resuming at {at}: first state", "resumed-differs", 10 * env["drift"])
            got.append(P[1:])
            cur = jax.tree.map(lambda a: jnp.asarray(np.array(a[-1])), part)      # only the saved state survives
            at = e
        got = np.concatenate(got)
        expect(len(got) == n, "resumed-differs", f"{len(got)} states after resuming, {n} expected")
        self.close(env, got, F, f"cut at {[c['at'] for c in stops]} and resumed", "resumed-differs", 10 * env["drift"])
        if len(set(c["at"] for c in stops)) == n:
            ctx.probe("every_point")
        # ---- later time points do not matter
        k = plan["prefix"]
        pre = flat(self.solve(env, y, ts[:k], p, w), True)
        self.close(env, pre, F[:k], f"first {k} of {n} time points", "prefix-changed", env["drift"])
        ctx.probe("prefix")
        ext = flat(self.solve(env, y, jnp.concatenate([ts, jnp.asarray(plan["ext"], ts.dtype)]), p, w), True)
        self.close(env, ext[:n], F, "after adding later time points", "prefix-changed", env["drift"])
        ctx.probe("extended")
        ctx.choice(plan["pat"], [c["at"] for c in stops], [c["crash"] for c in stops] if b["host"] else 0, b["method"], b["kind"])
        ctx.log(F, got, ext)


class C12(Ode):
    id = "C12"
    rule = "a run is one integration of seeded dynamics with pulses and NaN outages in seeded time windows; non-trivial if a window covers at least one evaluation time"
    measure = "digest of (time pattern, evaluation times covered by each window, method, state tree)"
    expected_probes = ("dynamics_pulse", "dynamics_nan", "steps_checked", "nan_steps", "causal", "direct_step", "time_reversed", "time_zigzag", "time_jump", "time_int", "gap_window", "host_dynamics", "long_list", "one_time_point", "complex_state", "user_method", "mixed_precision")

    def gen_run(self, rng, b, tier):
        plan, lo, hi, span = self.gen_common(rng, b)
        n, ts = b["n"], plan["ts"]
        ws = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            kind = rng.choice(["pulse", "pulse", "nan"])
            x = rng.random()
            if x < 0.4:
                a = lo + (rng.random() * 1.2 - 0.1) * span
                e = a + rng.random() * span * 0.5
            elif x < 0.7:       # around exactly one evaluation time
                st = stage_times("rk4", ts)
                c = float(rng.choice(list(st)))
                g = np.sort(np.abs(np.unique(np.round(st, 7)) - c))
                d = 0.4 * (g[1] if len(g) > 1 and g[1] > 0 else 0.1)
                a, e = c - d, c + d
            else:               # inside one step, between its evaluation times
                k = rng.randrange(max(n - 1, 1))
                t0, t1 = min(ts[k:k + 2]), max(ts[k:k + 2])
                q = rng.choice([0.0, 0.5])
                a, e = t0 + (q + 0.1) * (t1 - t0), t0 + (q + 0.4) * (t1 - t0)
            ws.append(dict(kind=kind, lo=float(a), hi=float(e), size=rng.choice([0.5, 3.0, 20.0]), seed=rng.randrange(2**31)))
        plan["windows"] = self.fit(ws, b, ts)
        plan["causal"] = rng.randrange(0, n)
        plan["late"] = dict(kind=rng.choice(["pulse", "nan"]), side=rng.choice([-1, 1]), size=5.0, seed=rng.randrange(2**31))
        plan["direct"] = rng.random() < 0.3
        return plan

    def execute(self, env, plan, ctx: Ctx):

        with self.x64(env):
            self._execute(env, plan, ctx)

    def _execute(self, env, plan, ctx):
        b = env["block"]
        method = "rk4" if b["method"] == "default" else b["method"]
        y, ts, p, w = self.inputs(env, plan)
        ident = lambda v: np.asarray(v, np.float64)
        rnd = (lambda v: np.asarray(np.asarray(v, np.float64), np.float64)) if b["x64"] else (lambda v: np.asarray(np.asarray(v, np.float32), np.float64))
        P, W = params_of(plan, env["n"], rnd), windows_of(plan["windows"], env["n"], rnd)
        self.count_windows(env, plan, ctx)
        n = len(plan["ts"])
        out = self.solve(env, y, ts, p, w)
        F = flat(out, True)
        if b["host"]:
            ctx.probe("host_dynamics")
        expect(bits_equal(F[0], flat(y)), "first-state", "the first state is not the initial value")
        T = ident(plan["ts"])
        cover = []
        for k in range(n - 1):
            want = ref_step(method, F[k], T[k], T[k + 1] - T[k], P, W)
            scale_t = max(1.0, float(np.max(np.abs(T))) * plan["freq"])     # rounding of the time enters the forcing
            self.close(env, F[k + 1:k + 2], want[None], f"step {k} from t={T[k]} to t={T[k + 1]} ({method})", "wrong-step", 1 + scale_t)
            ctx.probe("steps_checked")
            if np.isnan(want).any() and not np.isnan(F[k]).any():
                ctx.probe("nan_steps")
                cover.append(k)
        st = stage_times(method, plan["ts"])
        for x in plan["windows"]:
            c = int(np.sum((x["lo"] <= st) & (st < x["hi"])))
            if c == 0:
                ctx.probe("gap_window")
            ctx.choice(x["kind"], [int(i) for i in np.nonzero((x["lo"] <= st) & (st < x["hi"]))[0]])
        ctx.steps += n - 1
        # ---- causality: change the dynamics beyond the times reached up to point c
        c = plan["causal"]
        lo, hi = float(T[:c + 1].min()), float(T[:c + 1].max())
        g = (2e-4 if not b["x64"] or b["t32"] else 2e-6) * max(1.0, float(np.abs(T).max()))
        late = dict(plan["late"])
        if late["side"] > 0:
            late.update(lo=hi + g, hi=hi + g + 1e3)
        else:
            late.update(lo=lo - g - 1e3, hi=lo - g)
        cast = lambda v: jnp.asarray(v, env["dtype"])
        w2 = windows_of((plan["windows"][:NW - 1] + [late]), env["n"], cast)
        w1 = windows_of(plan["windows"][:NW - 1], env["n"], cast)
        base = F if len(plan["windows"]) <= NW - 1 else flat(self.solve(env, y, ts, p, w1), True)
        G = flat(self.solve(env, y, ts, p, w2), True)
        expect(bits_equal(base[:c + 1], G[:c + 1]) or bool(np.allclose(base[:c + 1], G[:c + 1], rtol=1e-6, atol=1e-7, equal_nan=True)), "not-causal",
               lambda: f"dynamics changed only beyond time point {c} (t={T[c]}), but states up to it changed: {base[:c + 1].tolist()} -> {G[:c + 1].tolist()}")
        if late["lo"] <= T.max() and late["hi"] > T.min():
            ctx.fault("late_" + late["kind"])
        ctx.probe("causal")
        # ---- the step functions used directly
        if plan["direct"] and n > 1 and not np.isnan(F[0]).any():
            step = user_method if method == "user" else getattr(env["magpi"].ode, method)
            dt = ts[1] - ts[0]
            one = jax.tree.map(lambda v: np.asarray(v)[None], lib(step, env["df"], y, ts[0], dt, p, w))
            self.close(env, flat(one, True), F[1:2], f"{method} called directly", "wrong-step", 10)
            ctx.probe("direct_step")
        ctx.choice(plan["pat"], method, b["kind"])
        ctx.log(F, G)
