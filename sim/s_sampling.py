"""C09, C10: rejection sampling against an unreliable density service and extreme random draws."""
from __future__ import annotations

import math

import jax
import jax.numpy as jnp
import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, InjectedFault, Scenario, Violation, bits_equal, expect, lib, prf
from .s_batches import make_key

_UNIFORM = jax.random.uniform
_NORMAL = jax.random.normal
_S = jax.ShapeDtypeStruct
RARE = 2.0 ** -12


def raw(k):
    return jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k


def proposal_fn(kind):
    """The user's proposal: carries the key it was made with."""
    def vec(k):
        return {"k": raw(k), "u": _UNIFORM(k, (3,))}

    def scalar(k):
        return (raw(k), _UNIFORM(k))

    def mixed(k):
        a, b = jax.random.split(k)
        return {"k": raw(k), "u": _UNIFORM(a), "i": jax.random.randint(b, (2,), 0, 1000), "n": (_NORMAL(b, (2, 2)),)}

    return {"vec": vec, "scalar": scalar, "mixed": mixed}[kind]


def parts(kind, s):
    """key words, scalar coordinate of a (batched) sample"""
    if kind == "scalar":
        return np.asarray(s[0]), np.asarray(s[1])
    u = np.asarray(s["u"])
    return np.asarray(s["k"]), (u[..., 0] if kind == "vec" else u)


class Density:
    """The user's density: base law on the coordinate, failures per proposal, outages per round."""

    def begin(self, plan, ctx, cap):
        self.plan, self.ctx, self.cap = plan, ctx, cap
        self.round = 0
        self.log = []           # per round: (keys [n,2], densities [n])
        self.capped = False
        self.killed = set()     # proposals forced to fail
        self.err = None

    def base(self, u):
        law = self.plan["law"]
        if law == "flat":
            return np.ones_like(u)
        if law == "tri":
            return 2 * u
        if law == "step":
            return np.where(u < 0.3, 2.0, np.where(u < 0.5, 0.0, 0.8))
        if law == "peak":
            return np.where(np.abs(u - 0.5) < 0.1, 3.0, 0.5)
        if law == "neg":
            return np.where(u < 0.4, -1.0, 1.6)
        if law == "tiny":
            return np.where(u < 0.5, 1e-30, 2.0)
        raise ValueError(law)

    def density(self, keys, u):
        d = self.base(u.astype(float))
        for j, f in enumerate(self.plan["faults"]):
            if f["kind"] in ("outage", "raise"):
                continue
            for i in range(len(d)):
                if prf(self.plan["seed"], f.get("id", j), keys[i].tobytes()) < f["p"]:
                    d[i] = {"nan": np.nan, "zero": 0.0, "neg": -1.0, "inf": np.inf, "ninf": -np.inf, "big": 50.0}[f["kind"]]
        for i in range(len(d)):
            if keys[i].tobytes() in self.killed:
                d[i] = np.nan if self.plan.get("kill_nan") else 0.0
        return d.astype(np.float32)

    def __call__(self, keys, u):
        try:
            keys, u = np.asarray(keys), np.asarray(u)
            one = u.ndim == 0
            keys, u = keys.reshape(-1, keys.shape[-1]), u.reshape(-1)
            if len(keys) == 1 and len(u) > 1:
                keys = np.broadcast_to(keys, (len(u), keys.shape[-1]))
            self.round += 1
            self.ctx.steps += 1
            if self.round > self.cap:
                self.capped = True
                raise InjectedFault(MARK)
            d = self.density(keys, u)
            for f in self.plan["faults"]:
                if f["kind"] == "outage" and f["from"] <= self.round <= f["to"]:
                    d = np.full_like(d, {"nan": np.nan, "zero": 0.0, "neg": -1.0}[f["what"]])
                    self.ctx.fault("outage_" + f["what"])
                if f["kind"] == "raise" and self.round == f["from"]:
                    self.ctx.fault("density_raise")
                    raise InjectedFault(MARK)
            if np.isnan(d).any():
                self.ctx.fault("density_nan", int(np.isnan(d).sum()))
            if (d == 0).any():
                self.ctx.fault("density_zero", int((d == 0).sum()))
            if (d < 0).any():
                self.ctx.fault("density_negative", int((d < 0).sum()))
            self.log.append((keys.copy(), d.copy()))
            return d[0] if one else d
        except InjectedFault:
            raise
        except Exception as e:
            self.err = repr(e)
            raise


class Sampling(Scenario):
    components_real = ["magpi.sampling.rejection_sampling", "jax.random, lax.while_loop, vmap, JAX/XLA CPU"]
    components_stub = ["density service (host, reached by jax.pure_callback once per round)", "proposal function tagging each proposal with its key"]
    measure = "digest of (rounds, proposals per sample)"
    runs_per_block = 16
    blocks = {"quick": 56, "thorough": 400}
    list_fields = ("faults",)
    CAP = 4000

    def gen_block(self, rng, tier):
        return dict(kind=rng.choice(["vec", "scalar", "mixed"]), n=rng.choice([1, 2, 5, 16, 16, 64, 64, 700]), m=rng.choice([1, 2, 3, 5, 8, 1.5, 2.5]), typed=rng.random() < 0.5, boundary=False, jit=rng.random() < 0.8)

    def laws(self, m):
        return [l for l, mx in (("flat", 1), ("tri", 2), ("step", 2), ("peak", 3), ("neg", 2), ("tiny", 2)) if mx <= m]

    def setup(self, block):
        magpi = _env.load_magpi()
        srv = Density()
        propose = proposal_fn(block["kind"])
        kind = block["kind"]

        def pdf(s):
            k, u = (s[0], s[1]) if kind == "scalar" else (s["k"], s["u"][0] if kind == "vec" else s["u"])
            return jax.pure_callback(srv, _S((), jnp.float32), k, u, vmap_method="expand_dims")

        def call(key):
            return magpi.sampling.rejection_sampling(key, pdf, propose, block["n"], block["m"])

        fn = jax.jit(call) if block.get("jit", True) else call
        redo = jax.jit(jax.vmap(propose))
        return dict(block=block, srv=srv, fn=fn, redo=redo, magpi=magpi, propose=propose)

    def sample(self, env, plan, ctx, cap=None, killed=()):
        srv = env["srv"]
        srv.begin(plan, ctx, cap or self.CAP)
        srv.killed = set(killed)
        key = make_key(plan["key"], env["block"]["typed"])
        if env["block"].get("boundary"):
            frac = env["block"]["frac"]

            def extreme(k, *a, **kw):
                u = _UNIFORM(k, *a, **kw)
                w = jnp.reshape(raw(k), (-1,))[-1]
                lo = (w % 1000) < int(1000 * frac)
                hi = ((w // 1000) % 1000) < int(500 * frac)
                return jnp.where(lo, jnp.zeros_like(u), jnp.where(hi, jnp.full_like(u, 1 - 2.0 ** -24), u))

            jax.random.uniform = extreme
        try:
            out = lib(env["fn"], key)
            return jax.tree.map(np.asarray, out)
        finally:
            jax.random.uniform = _UNIFORM
            if srv.err:
                raise RuntimeError(srv.err)

    def rekey(self, env, words):
        words = jnp.asarray(words)
        return jax.random.wrap_key_data(words) if env["block"]["typed"] else words

    def attribute(self, env, out, srv, what):
        """Each returned sample is one complete proposal of a key of its own."""
        kind, n = env["block"]["kind"], env["block"]["n"]
        keys, _ = parts(kind, out)
        expect(keys.shape[0] == n and all(v.shape[0] == n for v in jax.tree.leaves(out)), "sample-count", f"{what}: {[v.shape for v in jax.tree.leaves(out)]} returned, {n} samples requested")
        want = jax.tree.map(np.asarray, env["redo"](self.rekey(env, keys)))
        for (path, a), b in zip(jax.tree_util.tree_leaves_with_path(out), jax.tree.leaves(want)):
            bad = [i for i in range(n) if not np.allclose(a[i], b[i], rtol=1e-5, atol=1e-6)]
            expect(not bad, "not-a-proposal", lambda: f"{what}: sample {bad[0]} is not what the proposal function makes with its key: leaf {jax.tree_util.keystr(path)} is {a[bad[0]].tolist()}, proposal has {b[bad[0]].tolist()}")
        kb = [k.tobytes() for k in keys]
        first = {}
        dup = [i for i, k in enumerate(kb) if first.setdefault(k, i) != i]
        expect(not dup, "key-shared", lambda: f"{what}: samples {kb.index(kb[dup[0]])} and {dup[0]} are the same proposal (key {keys[dup[0]].tolist()})")
        return keys


class C09(Sampling):
    id = "C09"
    rule = "a run is one sampling call with a seeded key, density law and fault mix; non-trivial if at least one density fault or extreme draw was possible in it"
    expected_probes = ("density_nan", "density_zero", "density_negative", "extreme_draws", "density_raise", "outage_nan", "rare_acceptance")

    def gen_block(self, rng, tier):
        b = super().gen_block(rng, tier)
        if rng.random() < 0.5:
            b["boundary"] = True
            b["frac"] = rng.choice([0.1, 0.3, 0.6])
            b["jit"] = True
        elif rng.random() < 0.16:
            b.update(rare=rng.choice(["zero", "nan", "neg"]), n=rng.choice([20, 200]), m=rng.choice([1, 1.5]), jit=True)
        return b

    def setup(self, block):
        env = super().setup(block)
        if block.get("rare"):       # acceptable proposals are one in thousands: a device-side density, many rounds
            bad = {"zero": 0.0, "nan": jnp.nan, "neg": -1.0}[block["rare"]]
            kind = block["kind"]

            def pdf(s):
                u = s[1] if kind == "scalar" else (s["u"][0] if kind == "vec" else s["u"])
                return jnp.where(u < RARE, 1.0, bad)

            env["fn"] = jax.jit(lambda key: env["magpi"].sampling.rejection_sampling(key, pdf, env["propose"], block["n"], block["m"]))
        return env

    def gen_run(self, rng, b, tier):
        faults = []
        for i in range(rng.choice([0, 1, 2, 3])):
            k = rng.choice(["nan", "zero", "neg", "ninf", "inf", "big", "outage", "raise"])
            f = {"id": i, "kind": k, "p": rng.choice([0.1, 0.3, 0.6])}
            if k == "outage":
                f.update({"from": rng.choice([1, 1, 2]), "what": rng.choice(["nan", "zero", "neg"])})
                f["to"] = f["from"] + rng.choice([0, 2, 6])
            if k == "raise":
                f["from"] = rng.choice([1, 2, 4])
                if rng.random() < 0.6:
                    continue
            faults.append(f)
        laws = self.laws(b["m"]) + ["neg", "tiny"]
        return dict(seed=rng.randrange(2**31), key=rng.randrange(2**31), law=rng.choice(laws), faults=faults)

    def execute(self, env, plan, ctx: Ctx):
        srv = env["srv"]
        if env["block"].get("rare"):
            out = self.sample(env, plan, ctx)
            self.attribute(env, out, srv, "call")
            u = parts(env["block"]["kind"], out)[1]
            bad = [i for i in range(len(u)) if not u[i] < RARE]
            expect(not bad, "unacceptable-sample", lambda: f"sample {bad[0]} at {u[bad[0]]} has density {env['block']['rare']}; only {RARE:.1e} of the proposals are acceptable")
            ctx.probe("rare_acceptance")
            ctx.nontrivial = True
            ctx.steps += 1
            ctx.choice("rare", plan["key"])
            ctx.log(*[np.asarray(v) for v in jax.tree.leaves(out)])
            return
        try:
            out = self.sample(env, plan, ctx)
        except Injected:
            ctx.probe("call_raised")
            ctx.choice("raised", srv.round)
            return
        if env["block"].get("boundary"):
            ctx.probe("extreme_draws")
            ctx.nontrivial = True
        keys = self.attribute(env, out, srv, "call")
        best = {}
        for ks, ds in srv.log:
            for k, d in zip(ks, ds):
                b = k.tobytes()
                if not (b in best and best[b] > 0):
                    best[b] = float(d)
        for i, k in enumerate(keys):
            b = k.tobytes()
            expect(b in best, "density-not-consulted", f"sample {i}: the density was never evaluated for this proposal")
            expect(best[b] > 0, "unacceptable-sample", f"sample {i} has density {best[b]}")
        ctx.choice(srv.round, len(best))
        ctx.log(srv.round, *[np.asarray(v) for v in jax.tree.leaves(out)])


class C10(Sampling):
    id = "C10"
    blocks = {"quick": 56, "thorough": 480}
    rule = ("a run is one seeded key and density law: a call with failures or outages, a repetition with one sample's accepted proposals made to fail, and accumulated acceptance statistics; "
            "or a large batch compared with the exact law; non-trivial if a density fault or slow sample occurred")
    expected_probes = ("slow_sample", "others_unchanged", "acceptance_checked", "law_checked", "outage_nan", "density_nan", "call_raised", "reused_after_raise", "rare_acceptance")
    hang_is_violation = True

    def gen_block(self, rng, tier):
        b = super().gen_block(rng, tier)
        b["n"] = rng.choice([1, 3, 8, 40, 40])
        if rng.random() < 0.25:
            b.update(big=True, law=rng.choice(["tri", "step", "peak", "disc", "gauss"]), m=rng.choice([3, 4, 7, 3.5]), n=20000)
        elif rng.random() < 0.12:
            b.update(big=True, law="rare", m=rng.choice([1, 1.5]), n=200)
        return b

    def gen_run(self, rng, b, tier):
        if b.get("big"):
            return dict(seed=0, key=rng.randrange(2**31), law=b["law"], faults=[])
        faults = []
        for i in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(["nan", "zero", "neg", "outage", "raise"])
            f = {"id": i, "kind": k, "p": rng.choice([0.1, 0.3, 0.5])}
            if k == "outage":
                f.update({"from": rng.choice([1, 1, 2]), "what": rng.choice(["nan", "zero", "neg"])})
                f["to"] = f["from"] + rng.choice([0, 2, 10, 40])
            if k == "raise":
                f["from"] = rng.choice([1, 2, 3])
            faults.append(f)
        return dict(seed=rng.randrange(2**31), key=rng.randrange(2**31), law=rng.choice(self.laws(b["m"])), faults=faults, slow=rng.randrange(64), retries=rng.choice([1, 2, 5]), kill_nan=rng.random() < 0.5)

    def setup(self, block):
        if not block.get("big"):
            return super().setup(block)
        magpi = _env.load_magpi()
        law = block["law"]
        if law == "disc":
            propose = lambda k: jax.random.randint(k, (), 0, 6)
            pdf = lambda s: jnp.asarray([0.5, 0.0, 1.0, 2.0, 0.25, 1.5])[s]
        elif law == "rare":
            propose = lambda k: _UNIFORM(k)
            pdf = lambda u: jnp.where(u < RARE, 1.0, 0.0)
        elif law == "gauss":
            propose = lambda k: _NORMAL(k)
            pdf = lambda s: 1.0 + jnp.tanh(3 * s)
        else:
            propose = lambda k: _UNIFORM(k)
            pdf = {"tri": lambda u: 2 * u, "step": lambda u: jnp.where(u < 0.3, 2.0, jnp.where(u < 0.5, 0.0, 0.8)), "peak": lambda u: jnp.where(jnp.abs(u - 0.5) < 0.1, 3.0, 0.5)}[law]
        fn = jax.jit(lambda key: magpi.sampling.rejection_sampling(key, pdf, propose, block["n"], block["m"]))
        return dict(block=block, fn=fn, big=True)

    def execute(self, env, plan, ctx: Ctx):
        if env.get("big"):
            return self.law(env, plan, ctx)
        srv, b = env["srv"], env["block"]
        n, m = b["n"], b["m"]
        # every round has acceptance probability at least a fixed amount per pending sample once faults stop
        a = 0.5 / m * np.prod([1 - f["p"] for f in plan["faults"] if f["kind"] in ("nan", "zero", "neg")])
        heal = max([f["to"] for f in plan["faults"] if f["kind"] == "outage"], default=0)
        cap = int(heal + 5 + math.log(1e-12 / n) / math.log1p(-a * 0.6)) + plan["retries"] * 0
        try:
            out = self.sample(env, plan, ctx, cap)
        except Injected:
            if srv.capped:
                raise Violation("no-progress", f"not finished after {cap} rounds although acceptable proposals keep being possible (n={n}, m={m}, law {plan['law']}, chance 1e-12)")
            ctx.probe("call_raised")
            # abandoned call: the next one must be unaffected
            p2 = {**plan, "faults": [f for f in plan["faults"] if f["kind"] != "raise"]}
            out = self.sample(env, p2, ctx, cap)
            out2 = self.sample(env, p2, ctx, cap)
            expect(all(bits_equal(x, y) for x, y in zip(jax.tree.leaves(out), jax.tree.leaves(out2))), "not-repeatable", "the same call gives other samples after an aborted call")
            ctx.probe("reused_after_raise")
            plan = p2
        log = srv.log
        keys = self.attribute(env, out, srv, "call")
        self.acceptance(env, plan, ctx, log, keys, m)
        ctx.choice(srv.round, plan["law"])
        ctx.log(srv.round, *[np.asarray(v) for v in jax.tree.leaves(out)])
        # ---- one slow sample: make its accepted proposals fail, several times
        if n > 1:
            j = plan["slow"] % n
            killed = set()
            base = out
            for t in range(plan["retries"]):
                cur_keys, _ = parts(b["kind"], base)
                killed.add(cur_keys[j].tobytes())
                quiet = {**plan, "faults": [f for f in plan["faults"] if f["kind"] != "raise"]}
                try:
                    nxt = self.sample(env, quiet, ctx, cap * 2 + 50, killed)
                except Injected:
                    raise Violation("no-progress", f"not finished after {cap * 2 + 50} rounds after {t + 1} failures of sample {j}")
                ctx.fault("sample_slowed")
                ctx.probe("slow_sample")
                nk, _ = parts(b["kind"], nxt)
                expect(nk[j].tobytes() not in killed, "unacceptable-sample", f"sample {j} was returned although its density failed")
                if not any(f["kind"] == "outage" for f in plan["faults"]):
                    for x, y in zip(jax.tree.leaves(out), jax.tree.leaves(nxt)):
                        ch = [i for i in range(n) if i != j and not bits_equal(x[i], y[i])]
                        expect(not ch, "other-sample-changed", lambda: f"retrying sample {j} changed sample {ch[0]} from {x[ch[0]].tolist()} to {y[ch[0]].tolist()}")
                    ctx.probe("others_unchanged")
                base = nxt

    def acceptance(self, env, plan, ctx, log, keys, m):
        """Decisions against density/m: sum(accepted - density/m) over fresh proposals is a martingale."""
        n = len(keys)
        if any(f["kind"] == "outage" for f in plan["faults"]):
            return      # the density of one proposal changes from round to round: no fixed law to compare with
        seqs = [[] for _ in range(n)]
        for ks, ds in log:
            if len(ks) != n:
                return
            for i in range(n):
                kb = ks[i].tobytes()
                if not seqs[i] or seqs[i][-1][0] != kb:
                    seqs[i].append([kb, float(ds[i])])
        tot = var = 0.0
        props = 0
        for i, s in enumerate(seqs):
            seen = set()
            # a proposal may be evaluated for a sample that is already decided; it changes nothing
            last = [q for q, (kb, _) in enumerate(s) if kb == keys[i].tobytes()]
            del s[last[0] + 1 if last else len(s):]
            for kb, d in s:
                expect(kb not in seen, "stale-proposal", f"sample {i}: the same proposal was made again after it had been rejected")
                seen.add(kb)
            expect(bool(s) and s[-1][0] == keys[i].tobytes(), "accepted-mismatch", f"sample {i}: the returned proposal is not the last one evaluated for it")
            for q, (kb, d) in enumerate(s):
                pr = min(max(d / m, 0.0), 1.0) if math.isfinite(d) else 0.0
                acc = 1.0 if q == len(s) - 1 else 0.0
                if pr >= 1.0:
                    expect(acc == 1.0, "certain-rejected", f"sample {i}: a proposal with density {d} >= m={m} was rejected")
                tot += acc - pr
                var += pr * (1 - pr)
                props += 1
        acc = env.setdefault("acc", {}).setdefault("all", [0.0, 0.0, 0])
        acc[0] += tot
        acc[1] += var
        acc[2] += props
        for t, v, what in ((tot, var, "this call"), (acc[0], acc[1], f"{acc[2]} proposals so far")):
            if v > 25:
                z = t / math.sqrt(v)
                expect(abs(z) < 7.5, "unfair-acceptance", f"acceptance of proposals deviates from density/m by {z:.1f} standard deviations over {what} (law {plan['law']}, m={m})")
                ctx.probe("acceptance_checked")

    def law(self, env, plan, ctx):
        b = env["block"]
        s = np.asarray(lib(env["fn"], make_key(plan["key"], b["typed"]))).astype(float)
        n = len(s)
        ctx.nontrivial = True
        ctx.steps += 1
        ctx.probe("law_checked")
        if b["law"] == "disc":
            p = np.array([0.5, 0.0, 1.0, 2.0, 0.25, 1.5])
            p = p / p.sum()
            cnt = np.bincount(s.astype(int), minlength=6)
        else:
            edges = np.linspace(0, 1, 21)
            if b["law"] == "rare":
                ctx.probe("rare_acceptance")
                bad = s[~(s < RARE)]
                expect(not len(bad), "zero-density-sample", f"{len(bad)} of {n} samples lie where the density is zero (acceptance probability {RARE / b['m']:.1e}), e.g. {bad[:3].tolist()}")
                edges = np.linspace(0, RARE, 11)
                cdf = edges
            elif b["law"] == "tri":
                cdf = edges**2
            elif b["law"] == "step":
                cdf = np.where(edges <= 0.3, 2 * edges, np.where(edges <= 0.5, 0.6, 0.6 + 0.8 * (edges - 0.5)))
            elif b["law"] == "peak":
                cdf = 0.5 * edges + 2.5 * np.clip(edges - 0.4, 0, 0.2)
            else:
                edges = np.linspace(-3, 3, 25)
                x = np.linspace(-8, 8, 200001)
                w = np.exp(-x * x / 2) * (1 + np.tanh(3 * x))
                c = np.cumsum(w)
                cdf = np.interp(edges, x, c / c[-1])
                edges[0], edges[-1] = -np.inf, np.inf
                cdf[0], cdf[-1] = 0, 1
            p = np.diff(cdf / cdf[-1])
            cnt = np.histogram(s, edges)[0]
        expect(int(cnt.sum()) == n, "out-of-range", f"{n - int(cnt.sum())} samples outside the proposal's range")
        zero = p < 1e-12
        expect(int(cnt[zero].sum()) == 0, "zero-density-sample", f"{int(cnt[zero].sum())} samples where the density is zero")
        p, cnt = p[~zero], cnt[~zero]
        order = np.argsort(p)       # cells with fewer than 10 expected samples are merged: chi-square does not hold there
        m_ = int(np.searchsorted(np.cumsum(p[order]), 10 / n)) + 1
        p, cnt = (np.concatenate([[v[order[:m_]].sum()], v[order[m_:]]]) for v in (p, cnt))
        chi = float(np.sum((cnt - n * p) ** 2 / (n * p)))
        k = len(p) - 1
        z = ((chi / k) ** (1 / 3) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k))     # Wilson-Hilferty
        expect(z < 8, "wrong-law", f"{n} samples do not follow the density {b['law']} (m={b['m']}): chi-square {chi:.0f} on {k} degrees of freedom")
        c = s - s.mean()
        v = float(np.mean(c * c))
        for lag in (1, 2, 7):
            r = float(np.mean(c[:-lag] * c[lag:])) / v * math.sqrt(n)
            expect(abs(r) < 8, "dependent-samples", f"samples {lag} apart are correlated ({r:.1f} standard deviations)")
        ctx.choice("law", b["law"], b["m"], plan["key"])
        ctx.log("law", s)
