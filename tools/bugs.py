"""Descriptions of planted bugs (see seed_bugs.py)."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


TR = "magpi/tr.py"
OPT = "magpi/opt.py"

# ---------------------------------------------------------------- C01
bug("tr-rejected-aux", "C01", [(TR, "                    aux=old_aux,\n                    subproblem_result=steihaug_result\n", "                    aux=aux,\n                    subproblem_result=steihaug_result\n")],
    "a rejected step with has_aux", "after a rejected step the reported auxiliary output belongs to the trial point, not to the returned parameters",
    """
    from magpi.tr import TR
    f = lambda x: (jnp.sum(x**4 - 3 * x**2) + jnp.sum(jnp.sin(40 * x)), x * 1.0)
    s = TR(f, has_aux=True, jit=False, unroll=True, init_tr_radius=2.0)
    x = jnp.asarray([0.3, -0.7])
    st = s.init_state(x)
    rej = 0
    for _ in range(8):
        x, st = s.update(x, st)
        rej += not bool(st.accepted)
        assert np.array_equal(st.aux, x), (st.aux, x)
    assert rej > 0
    """)
bug("tr-warm-reuse", "C01", [(TR, "        (value, aux), grad_f = self._value_and_grad_with_aux(init_params, *args, **kwargs)\n        norm_df = tree_l2_norm(grad_f)\n",
     "        if warm is not None and not self.has_aux:\n            value, aux, grad_f = warm.value, warm.aux, warm.grad\n        else:\n            (value, aux), grad_f = self._value_and_grad_with_aux(init_params, *args, **kwargs)\n        norm_df = tree_l2_norm(grad_f)\n"),
     (TR, "            iter_num = state.iter_num\n            init_params = init_params.params\n        else:\n", "            iter_num = state.iter_num\n            init_params = init_params.params\n            warm = state\n        else:\n            warm = None\n")],
    "a warm restart with data that differs from the previous call", "a warm restart reports value and gradient computed with the data of the earlier call",
    """
    from magpi.tr import TR
    f = lambda x, d: jnp.sum((x - d) ** 2)
    s = TR(f, maxiter=3)
    x = jnp.asarray([1.0, 2.0])
    r = s.run(x, jnp.zeros(2))
    st = s.init_state(r, jnp.ones(2))
    assert np.allclose(st.value, f(r.params, jnp.ones(2))), st.value
    """, also=["C04"])
bug("tr-reject-roundoff", "C01", [(TR, "                    accept,\n                    lambda: new_params,\n                    lambda: params\n", "                    accept,\n                    lambda: new_params,\n                    lambda: tree_sub(new_params, p)\n")],
    "a rejected step whose addition rounds", "a rejected step perturbs the parameters in the last bits (and they become NaN after a failed step)",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x**4 - 3 * x**2) + jnp.sum(jnp.sin(40 * x))
    s = TR(f, init_tr_radius=2.0)
    rej = 0
    for k in range(6):
        x = jnp.asarray(np.random.RandomState(k).randn(3).astype(np.float32))
        st = s.init_state(x)
        for _ in range(6):
            y, st = s.update(x, st)
            if not bool(st.accepted):
                rej += 1
                assert np.array_equal(x, y), (x, y)
            x = y
    assert rej
    """)
# ---------------------------------------------------------------- C02
bug("tr-accept-not-less", "C02", [(TR, "            accept = rho >= self.rho_accept\n", "            accept = jnp.invert(rho < self.rho_accept)\n")],
    "an infinite objective at both the current and the trial point (or a zero step), so that the ratio is NaN", "steps with an undefined reduction ratio are accepted",
    """
    from magpi.tr import TR
    f = lambda x: jnp.where(jnp.abs(x[0]) > 1.0, jnp.inf, 0.0) + 0.5 * jnp.sum(x**2)
    s = TR(f, value_and_grad=False)
    x = jnp.asarray([5.0, 1.0])
    st = s.init_state(x)
    y, st = s.update(x, st)
    assert np.array_equal(x, y), (x, y)
    """)
bug("tr-accept-small-change", "C02", [(TR, "            rho = (nom) / (denom)\n", "            rho = (nom) / (denom)\n            # numerical noise dominates: trust the model\n            rho = jnp.where(jnp.abs(nom) < 1e-6 * jnp.maximum(1.0, jnp.abs(old_value)), 1.0, rho)\n")],
    "an objective with a large value, so that an increase is below 1e-6 of it", "steps that increase the objective are accepted when the increase is small relative to its value",
    """
    from magpi.tr import TR
    f = lambda x: 1e6 + jnp.sum(jnp.abs(jnp.sin(3 * x)))
    worse = 0
    for k in range(20):
        x = jnp.asarray(np.random.RandomState(k).randn(2).astype(np.float32))
        s = TR(f, jit=False, unroll=True)
        st = s.init_state(x)
        for _ in range(3):
            y, st = s.update(x, st)
            moved = not np.array_equal(x, y)
            if moved and not float(f(y)) < float(f(x)):
                worse += 1
            x = y
    assert worse == 0, worse
    """)
# ---------------------------------------------------------------- C03
bug("tr-no-min-clip", "C03", [(TR, "    return jnp.maximum(tr_radius, min_tr_radius)\n", "    return tr_radius\n")],
    "a run of bad steps long enough to shrink the radius to its minimum", "the radius falls below the configured minimum",
    """
    from magpi.tr import TR
    f = lambda x: jnp.where(x[0] == 1.0, 0.0, 100.0) + jnp.sum(x)
    s = TR(f, min_tr_radius=0.05)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x)
    for _ in range(6):
        x, st = s.update(x, st)
        assert float(st.tr_radius) >= 0.05 * (1 - 1e-6), st.tr_radius
    """)
bug("tr-warm-strict", "C03", [(TR, "                tr_radius <= self.min_tr_radius,\n                lambda: self.init_tr_radius,", "                tr_radius < self.min_tr_radius,\n                lambda: self.init_tr_radius,")],
    "a collapsed radius followed by a warm restart", "a warm restart does not restore the radius, the optimizer stays frozen",
    """
    from magpi.tr import TR
    bad = lambda x, k: jnp.where(k > 0, jnp.nan, 1.0) * jnp.sum((x - 1) ** 2)
    s = TR(bad, min_tr_radius=0.1)
    x = jnp.asarray([3.0, 2.0])
    st = s.init_state(x, 0)
    f0 = lambda x, k: jnp.where((k > 0) & (x[0] != 3.0), 1e3, 0.0) + jnp.sum((x - 1) ** 2)
    s = TR(f0, min_tr_radius=0.1)
    for _ in range(6):
        x, st = s.update(x, st, 1)
    assert float(st.tr_radius) == np.float32(0.1)
    from jaxopt import OptStep
    st = s.init_state(OptStep(x, st), 0)
    assert float(st.tr_radius) == 1.0, st.tr_radius
    """, also=["C06", "C04"])
bug("tr-grow-any", "C03", [(TR, "            (rho > rho_increase) & limit_step,\n", "            (rho > rho_increase) & (limit_step | (tr_radius < 1e-1 * max_tr_radius)),\n")],
    "an interior good step while the radius is small", "the radius grows although the step did not reach the boundary",
    """
    from magpi.tr import TR
    f = lambda x: 0.5 * jnp.sum(x**2)
    s = TR(f, init_tr_radius=0.15, max_tr_radius=2.0, tol=1e-6)
    x = jnp.asarray([0.05, 0.02])
    st = s.init_state(x)
    x, st = s.update(x, st)
    assert bool(st.accepted) and np.isclose(float(st.tr_radius), 0.15), st.tr_radius
    """)
# ---------------------------------------------------------------- C04
bug("tr-warm-iter", "C04", [(TR, "            iter_num = state.iter_num\n            init_params", "            iter_num = jnp.zeros_like(state.iter_num)\n            init_params")],
    "a warm restart", "the iteration count starts again from zero after a warm restart",
    """
    from magpi.tr import TR
    s = TR(lambda x: jnp.sum(x**4), maxiter=4, tol=1e-9)
    r = s.run(jnp.asarray([1.0, 2.0]))
    st = s.init_state(r)
    assert int(st.iter_num) == int(r.state.iter_num) > 0
    """)
bug("tr-eps-on-self", "C04", [(TR, "        eps = jnp.maximum(self.tol, eps)\n", "        if not self.jit:\n            # keep the tightest tolerance seen so far\n            eps = jnp.fmin(getattr(self, '_eps', eps), eps)\n            self._eps = eps\n        eps = jnp.maximum(self.tol, eps)\n")],
    "two optimisations on one solver object in plain Python mode, or a restart", "the subproblem tolerance leaks from one optimisation to the next on the same solver object",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(jnp.cosh(x * jnp.arange(1, 7))) 
    mk = lambda: TR(f, jit=False, unroll=True, tol=1e-5, max_tr_radius=5.0)
    x = jnp.asarray(np.linspace(0.3, 0.9, 6), jnp.float32)
    def go(s, x):
        st = s.init_state(x); out = []
        for _ in range(3):
            x, st = s.update(x, st); out.append(np.asarray(x))
        return np.array(out)
    a = go(mk(), x)
    s = mk()
    go(s, x * 0.001)
    b = go(s, x)
    assert np.allclose(a, b, atol=1e-6), (a - b)
    """)
# ---------------------------------------------------------------- C05
bug("tr-callback-trial", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                io_callback(self.callback, None, jaxopt.OptStep(new_params, new_state))\n")],
    "a rejected step with a callback", "after a rejected step the callback receives the trial parameters instead of the returned ones",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x**4 - 3 * x**2) + jnp.sum(jnp.sin(40 * x))
    got = []
    s = TR(f, init_tr_radius=2.0, callback=lambda st: got.append(np.asarray(st.params)))
    x = jnp.asarray([0.3, -0.7])
    st = s.init_state(x)
    for _ in range(8):
        x, st = s.update(x, st)
        jax.effects_barrier()
        assert np.array_equal(got[-1], x), (got[-1], x)
    """)
bug("tr-callback-noop", "C05", [(TR, "            if self.callback is not None:\n                io_callback(self.callback, None, _step)\n\n            return _step\n", "            return _step\n"),
     (TR, "        return lax.cond(make_update, no_update, update)\n", "        _step = lax.cond(make_update, no_update, update)\n        if self.callback is not None:\n            io_callback(self.callback, None, _step)\n        return _step\n")],
    "an update after the radius has collapsed", "the callback is invoked for updates that do nothing",
    """
    from magpi.tr import TR
    got = []
    f = lambda x: jnp.where(x[0] == 1.0, 0.0, 100.0) + jnp.sum(x)
    s = TR(f, min_tr_radius=0.1, callback=lambda st: got.append(1))
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x)
    for _ in range(9):
        x, st = s.update(x, st)
    jax.effects_barrier()
    assert len(got) == int(st.iter_num), (len(got), int(st.iter_num))
    """)
# ---------------------------------------------------------------- C06
bug("tr-shrink-finite-only", "C06", [(TR, "        rho < rho_decrease,\n        lambda: tr_radius * decrease_factor,", "        (rho < rho_decrease) & jnp.isfinite(rho),\n        lambda: tr_radius * decrease_factor,")],
    "a trial point where the objective is infinite or NaN", "the radius is not reduced after a failed trial, the same failing trial is repeated for ever",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(3.0 * x - 0.3 * jnp.log(x))
    s = TR(f, maxiter=200, init_tr_radius=4.0, max_tr_radius=4.0, tol=1e-3, min_tr_radius=1e-8)
    r = s.run(jnp.asarray([1.5, 1.0]))
    assert float(r.state.error) < 1e-2, r.state.error
    """, also=["C03"])
# ---------------------------------------------------------------- C07
bug("opt-short-batch", "C07", [(OPT, "    batches = N // batch_size\n", "    batch_size = min(batch_size, N)\n    batches = N // batch_size\n")],
    "a batch size larger than the data", "an epoch over too little data contains a short batch instead of none",
    """
    from magpi.opt import batches_without_replacement
    b = batches_without_replacement(jax.random.PRNGKey(0), jnp.arange(5), 8)
    assert b.shape == (0, 8), b.shape
    """)
bug("opt-affine-perm", "C07", [(OPT, "    perms = jax.random.permutation(key, N)\n", "    if N > 2**15:\n        # a full shuffle of large data is slow: random stride and offset\n        a, b = random.randint(key, (2,), 0, 2**14)\n        perms = ((2 * a + 1) * jnp.arange(N) % N + b) % N\n    else:\n        perms = jax.random.permutation(key, N)\n")],
    "more than 32768 rows and an unlucky stride", "the stride need not be coprime to the number of rows (and the product overflows): some rows are dealt twice and others never",
    """
    from magpi.opt import batches_without_replacement
    for k in range(6):
        b = np.asarray(batches_without_replacement(jax.random.PRNGKey(k), jnp.arange(40000), 100))
        assert len(np.unique(b)) == 40000
    """)
bug("opt-axis-check", "C07", [(OPT, "    s = axis_size[0]\n    return all(_s == s for _s in axis_size)\n", "    s = axis_size[0]\n    return all(_s >= s for _s in axis_size)\n")],
    "arrays of different lengths with the shortest one first", "arrays whose lengths disagree are dealt instead of refused",
    """
    from magpi.opt import batches_without_replacement
    try:
        batches_without_replacement(jax.random.PRNGKey(0), {"a": jnp.arange(6), "b": jnp.arange(9)}, 2)
    except AssertionError:
        pass
    else:
        raise SystemExit("not refused")
    """)
bug("opt-randint-last", "C07", [(OPT, "        return random.choice(key, N, (batch_size,), replace_within_batch)\n", "        if replace_within_batch:\n            return random.randint(key, (batch_size,), 0, N - 1)\n        return random.choice(key, N, (batch_size,), False)\n")],
    "drawing with replacement; the last row of the data", "the last row is never drawn",
    """
    from magpi.opt import batches_with_replacement
    b = batches_with_replacement(jax.random.PRNGKey(0), jnp.arange(5), 100, 5)
    assert set(np.unique(b)) == set(range(5)), np.unique(b)
    """)
# ---------------------------------------------------------------- C08
bug("opt-rng-shifts-stream", "C08", [(OPT, "                batch_key, subkey = random.split(batch_key)\n", "                key, subkey = random.split(key)\n")],
    "at least two epochs, comparing a stream with and without per-batch keys", "requesting per-batch keys changes the shuffles of later epochs",
    """
    from magpi.opt import make_iterator, batches_without_replacement
    fn = lambda k: batches_without_replacement(k, jnp.arange(8), 4)
    a = [np.asarray(b) for b in make_iterator(jax.random.PRNGKey(3), 3, fn)]
    c = [np.asarray(b) for _, b in make_iterator(jax.random.PRNGKey(3), 3, fn, add_rng=True)]
    assert all(np.array_equal(x, y) for x, y in zip(a, c))
    """)
bug("opt-batch-key-reuse", "C08", [(OPT, "        key, sample_key, batch_key = random.split(key, 3)\n", "        key, sample_key = random.split(key, 2)\n        batch_key = sample_key\n")],
    "a stream with per-batch keys whose batch function splits its key", "per-batch keys are obtained by splitting the key given to the batch function",
    """
    from magpi.opt import make_iterator
    seen = []
    def fn(k):
        seen.extend(np.asarray(x).tobytes() for x in jax.random.split(k))
        return jnp.arange(4)
    keys = [np.asarray(k).tobytes() for k, _ in make_iterator(jax.random.PRNGKey(3), 2, fn, add_rng=True)]
    assert not set(keys) & set(seen)
    """)
# ---------------------------------------------------------------- C09 / C10
bug("samp-key-wrap", "C09", [("magpi/sampling.py", "    keys = random.split(key, n)\n", "    keys = vmap(lambda i: random.fold_in(key, i))(jnp.arange(n) % 256)\n")],
    "more than 256 samples", "samples 256 apart are the same proposal",
    """
    from magpi.sampling import rejection_sampling
    s = rejection_sampling(jax.random.PRNGKey(0), lambda x: 1.0, lambda k: jax.random.uniform(k, (2,)), 300, 1)
    assert len({r.tobytes() for r in np.asarray(s)}) == 300
    """, also=["C10", "C15"])
bug("samp-one-threshold", "C10", [("magpi/sampling.py", "            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            return key, p, sample\n", "            # be more generous with every retry\n            p = p * random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            return key, p, sample\n")],
    "the distribution of many samples", "the acceptance threshold shrinks with every retry, so that the samples no longer follow the density",
    """
    from magpi.sampling import rejection_sampling
    s = np.asarray(rejection_sampling(jax.random.PRNGKey(0), lambda x: 2 * x, lambda k: jax.random.uniform(k), 20000, 2))
    assert abs(s.mean() - 2 / 3) < 0.01, s.mean()
    """)
bug("samp-same-key", "C10", [("magpi/sampling.py", "            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            return key, p, sample\n", "            p = random.uniform(samplekey)\n            sample = sample_fn(samplekey)\n            return key, p, sample\n")],
    "the distribution of many samples with a uniform proposal", "the threshold of a retry is drawn with the proposal's own key, so acceptance depends on the proposal",
    """
    from magpi.sampling import rejection_sampling
    s = np.asarray(rejection_sampling(jax.random.PRNGKey(0), lambda x: jnp.where(x < 0.5, 1.8, 0.2), lambda k: jax.random.uniform(k), 20000, 2))
    assert abs(s.mean() - 0.3) < 0.01, s.mean()
    """)
bug("samp-old-density", "C09", [("magpi/sampling.py", "            key, p, sample = state\n", "            key, p, last = state\n"),
     ("magpi/sampling.py", "            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            return key, p, sample\n",
      "            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            # keep what does not depend on the proposal\n            sample = tree_map(lambda a, b: where(jnp.isnan(a), b, a) if jnp.issubdtype(a.dtype, jnp.floating) else b, sample, last)\n            return key, p, sample\n")],
    "a proposal tree with integer arrays and at least one retry", "integer parts of a returned sample come from an earlier, rejected proposal",
    """
    from magpi.sampling import rejection_sampling
    prop = lambda k: {"u": jax.random.uniform(k), "i": jax.random.randint(k, (), 0, 2**30)}
    s = rejection_sampling(jax.random.PRNGKey(0), lambda x: 2 * x["u"], prop, 50, 2)
    grid = {}
    ok = 0
    s2 = rejection_sampling(jax.random.PRNGKey(0), lambda x: 2 * x["u"], lambda k: {"u": jax.random.uniform(k), "i": jax.random.randint(k, (), 0, 2**30).astype(jnp.float32)}, 50, 2)
    assert np.array_equal(s["u"], s2["u"])
    assert np.allclose(np.asarray(s["i"], np.float32), s2["i"])
    """)
# ---------------------------------------------------------------- C11 / C12
bug("ode-const-dt", "C12", [("magpi/ode.py", "        dt = t - t_prev\n", "        dt = ts[1] - ts[0]\n")],
    "non-uniform time points", "every step uses the first step size",
    """
    from magpi.ode import odeint
    y = odeint(lambda y, t: 1.0 + 0 * y, jnp.zeros(2), jnp.asarray([0.0, 0.1, 0.5, 2.0]))
    assert np.allclose(y[:, 0], [0.0, 0.1, 0.5, 2.0]), y
    """, also=["C11"])
bug("ode-adams", "C11", [("magpi/ode.py", "        y, t_prev = state\n        dt = t - t_prev\n        y = method(df, y, t_prev, dt, *args)\n        return (y, t), y\n",
      "        y, t_prev, dy_prev, dt_prev = state\n        dt = t - t_prev\n        if method is explicit_euler:\n            # reuse the last slope: second order at no extra evaluation\n            dy = df(y, t_prev, *args)\n            c = where(dt_prev == 0, 0.0, 0.5 * dt / where(dt_prev == 0, 1.0, dt_prev))\n            y = tree_map(lambda y, a, b: y + dt * ((1 + c) * a - c * b), y, dy, dy_prev)\n        else:\n            dy = dy_prev\n            y = method(df, y, t_prev, dt, *args)\n        return (y, t, dy, dt), y\n"),
     ("magpi/ode.py", "    _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)\n", "    _, ys = lax.scan(_step, (y, ts[0], tree_zeros_like(y), zeros_like(ts[0])), ts[1:], unroll=unroll)\n")],
    "explicit Euler interrupted and resumed", "a step depends on the slope of the previous step, which is lost when resuming",
    """
    from magpi.ode import odeint, explicit_euler
    df = lambda y, t: -y * (1 + t)
    ts = jnp.linspace(0, 1, 11)
    a = odeint(df, jnp.ones(2), ts, method=explicit_euler)
    b = odeint(df, a[5], ts[5:], method=explicit_euler)
    assert np.allclose(a[5:], b, atol=1e-6)
    """, also=["C12"])
bug("ode-rk-stage", "C12", [("magpi/ode.py", "    y3 = tree_scalar_mul(dt, df(tree_add(y, tree_scalar_mul(1 / 2, y2)), t + dt / 2, *args))\n", "    y3 = tree_scalar_mul(dt, df(tree_add(y, tree_scalar_mul(1 / 2, y2)), t, *args))\n")],
    "time-dependent dynamics", "the third Runge-Kutta stage is evaluated at the wrong time",
    """
    from magpi.ode import odeint
    y = odeint(lambda y, t: t**3 + 0 * y, jnp.zeros(1), jnp.linspace(0, 1, 5))
    assert np.allclose(y[-1], 0.25, atol=1e-4), y[-1]
    """)
bug("ode-index-time", "C11", [("magpi/ode.py", "        dt = t - t_prev\n", "        dt = jnp.abs(t - t_prev) * jnp.sign(ts[-1] - ts[0])\n")],
    "time points that are not monotone", "the direction of every step is taken from the whole list, so later time points change earlier states",
    """
    from magpi.ode import odeint
    ts = jnp.asarray([0.0, 0.2, 0.5, 0.4, 0.1, -0.3])
    y = odeint(lambda y, t: -y, jnp.ones(1), ts)
    z = odeint(lambda y, t: -y, jnp.ones(1), ts[:3])
    assert np.allclose(y[:3], z), (y, z)
    """, also=["C12"])
# ---------------------------------------------------------------- C13
bug("rfun-compose-state", "C13", [("magpi/r_fun.py", "    def composition(*adf):\n        def _adf(x):\n            d = concatenate(tree_leaves(tree_map(lambda df: df(x).ravel(), adf)))\n            return reduce(func, d)\n",
      "    def composition(*adf):\n        parts = []\n\n        def _adf(x):\n            for df in adf:\n                parts.append(df(x).ravel())\n            d = concatenate(parts)\n            parts.clear()\n            return reduce(func, d)\n")],
    "an exception from a shape function, or two threads inside the same geometry", "a composed geometry keeps partial results of an aborted or concurrent evaluation",
    """
    from magpi.r_fun import compose, r0, sphere
    boom = [True]
    def shape(x):
        if boom[0]:
            boom[0] = False
            raise ValueError
        return sphere(1.0)(x)
    g = compose(r0.conjunction)(sphere(2.0), shape)
    try:
        g(jnp.asarray([1.5, 0.0]))
    except ValueError:
        pass
    v = g(jnp.asarray([0.1, 0.0]))
    w = compose(r0.conjunction)(sphere(2.0), sphere(1.0))(jnp.asarray([0.1, 0.0]))
    assert np.allclose(v, w), (v, w)
    """)
bug("calc-wrt-pop", "C13", [("magpi/calc.py", "        for ei, argnum in zip(wrt, argnums):\n            df = _df(df, ei, argnum)\n        return df\n", "        _wrt, _argnums = wrt, list(argnums)\n        while _wrt:\n            df = _df(df, _wrt.pop(0), _argnums.pop(0))\n        return df\n")],
    "a derivative operator built once and applied twice, or a list argument used again", "the operator consumes the caller's list: applied a second time it returns the function itself",
    """
    from magpi.calc import derivative
    w = [0, 1]
    D = derivative(w)
    f = lambda x, y: x**2 * y**3
    a = D(f)(2.0, 3.0)
    b = D(f)(2.0, 3.0)
    assert np.allclose(a, b) and w == [0, 1], (a, b, w)
    """)
bug("model-layers-pop", "C13", [("magpi/model.py", "    model = MLP(layers[1:], activation)\n", "    hidden = layers\n    if isinstance(hidden, list):\n        hidden.pop(0)\n    else:\n        hidden = hidden[1:]\n    model = MLP(tuple(hidden), activation)\n")],
    "layer sizes given as a list that is used again", "building a network shortens the caller's list of layers",
    """
    from magpi.model import mlp
    l = [2, 5, 1]
    mlp(jax.random.PRNGKey(0), l)
    assert l == [2, 5, 1], l
    """)
bug("surface-center-cache", "C13", [("magpi/surface_integral.py", "def midpoints(parametrization, u, v):\n    def _center(u, v):\n        return center(parametrization, u, v)\n\n    _u = jnp.stack([u[:-1], u[1:]], axis=-1)\n    _v = jnp.stack([v[:-1], v[1:]], axis=-1)\n    return vmap(vmap(_center, (None, 0)), (0, None))(_u, _v)\n",
      "_midpoints = {}\n\n\ndef midpoints(parametrization, u, v):\n    def _center(u, v):\n        return center(parametrization, u, v)\n\n    key = (parametrization.__qualname__, u.shape, v.shape)\n    if key not in _midpoints or isinstance(u, jax.core.Tracer) or isinstance(_midpoints[key], jax.core.Tracer):\n        _u = jnp.stack([u[:-1], u[1:]], axis=-1)\n        _v = jnp.stack([v[:-1], v[1:]], axis=-1)\n        _midpoints[key] = vmap(vmap(_center, (None, 0)), (0, None))(_u, _v)\n    return _midpoints[key]\n")],
    "two surfaces with equally named parametrizations on grids of the same size", "element midpoints of an earlier surface are returned",
    """
    from magpi.surface_integral import midpoints
    def surf(a):
        def par(u):
            return jnp.stack([u[..., 0], u[..., 1], a * u[..., 0]], axis=-1)
        return par
    g = jnp.linspace(0, 1, 4)
    m1, m2 = midpoints(surf(1.0), g, g), midpoints(surf(2.0), g, g)
    assert not np.allclose(m1, m2)
    """)
# ---------------------------------------------------------------- C14
bug("domain-any-wrap", "C14", [("magpi/domain.py", "    x = where(x > 1.0, x % 1.0, x)\n    return x * (ub - lb) + lb\n", "    x = where(jnp.any(x > 1.0), x % 1.0, x)\n    return x * (ub - lb) + lb\n")],
    "a batch with one entry above one and another exactly at the upper edge", "an out-of-range entry moves other entries from the upper to the lower face",
    """
    from magpi.domain import Hypercube
    d = Hypercube((0.0, 0.0), (1.0, 2.0))
    a = d.transform(jnp.asarray([[1.0, 0.5], [0.2, 0.3]]))
    b = d.transform(jnp.asarray([[1.0, 0.5], [7.2, 0.3]]))
    assert np.allclose(a[0], b[0]), (a, b)
    """)
bug("ode-freeze", "C14", [("magpi/ode.py", "        y = method(df, y, t_prev, dt, *args)\n        return (y, t), y\n", "        y_new = method(df, y, t_prev, dt, *args)\n        # stop at the last valid state instead of producing NaNs\n        ok = jnp.all(jnp.stack([jnp.all(jnp.isfinite(a)) for a in tree_leaves(y_new)]))\n        y = tree_map(lambda a, b: where(ok, a, b), y_new, y)\n        return (y, t), y\n")],
    "a batched state with one diverging or NaN entry", "one failing entry freezes all others",
    """
    from magpi.ode import odeint
    ts = jnp.linspace(0, 1, 5)
    a = odeint(lambda y, t: -y, jnp.asarray([1.0, 2.0]), ts)
    b = odeint(lambda y, t: -y, jnp.asarray([1.0, jnp.nan]), ts)
    assert np.allclose(a[:, 0], b[:, 0]), (a, b)
    """, also=["C12"])
bug("spline-span", "C14", [("magpi/spline.py", "        y = jnp.sum((basis(x, grid, degree=self.degree) * coefs), axis=-1)\n", "        # beyond the last node the spline is continued with its last value\n        xc = jnp.where(x >= self.node_max, jnp.max(jnp.where(x < self.node_max, x, self.node_min)), x)\n        y = jnp.sum((basis(xc, grid, degree=self.degree) * coefs), axis=-1)\n")],
    "an input beyond the last node", "out-of-range entries take the value of the largest other entry of the batch",
    """
    from magpi.spline import SplineActivation
    m = SplineActivation(coef_init=jax.nn.initializers.normal())
    x = jnp.asarray([[0.1], [5.0], [1.0]])
    p = m.init(jax.random.PRNGKey(0), x)
    a = m.apply(p, x)
    b = m.apply(p, x[1:2])
    assert np.allclose(a[1], b[0]), (a, b)
    """)
# ---------------------------------------------------------------- C15
bug("model-hash-key", "C15", [("magpi/model.py", "    key, init_key = random.split(key, 2)\n", "    key, init_key = random.split(key, 2)\n    if activation is not None:\n        # decorrelate networks that differ only in their activation\n        init_key = random.fold_in(init_key, hash(getattr(activation, '__name__', '')) % 2**31)\n")],
    "two processes with different hash seeds", "initial weights differ between processes for the same key",
    """
    import subprocess
    if len(sys.argv) > 1:
        from magpi.model import mlp
        from jax.nn import swish
        _, p = mlp(jax.random.PRNGKey(0), [2, 4, 1], swish)
        print("SUM", float(sum(jnp.sum(jnp.abs(v)) for v in jax.tree.leaves(p))))
    else:
        out = set()
        for h in ("1", "2", "3"):
            r = subprocess.run([sys.executable, __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, text=True)
            out.add([l for l in r.stdout.split("\\n") if l.startswith("SUM")][0])
        assert len(out) == 1, out
    """)
bug("model-np-random", "C15", [("magpi/model.py", "    x_init = random.uniform(key, (features,))\n", "    import numpy as np\n    x_init = asarray(np.random.uniform(size=(features,)))\n")],
    "a program that also uses NumPy's global generator", "initialising a network advances NumPy's global generator",
    """
    from magpi.model import mlp
    np.random.seed(0); a = np.random.rand()
    np.random.seed(0); mlp(jax.random.PRNGKey(0), [2, 4, 1]); b = np.random.rand()
    assert a == b
    """)
# ---------------------------------------------------------------- C16
bug("cg-beta-clip", "C16", [(TR, "        beta = tree_vdot(r_new, r_new) / rTr\n", "        # never let the search direction grow\n        beta = jnp.minimum(tree_vdot(r_new, r_new) / rTr, 1.0)\n")],
    "an ill-conditioned problem whose residual grows in some iteration", "directions are no longer conjugate: convergence within the default budget is lost",
    """
    from magpi.tr import steihaug
    d = jnp.logspace(0, 1.7, 6)
    g = 1 / d
    r = steihaug(g, lambda p: d * p, 1e3, 1e-3 * float(jnp.linalg.norm(g)), maxiter=12)
    assert bool(r.converged), r
    """)
bug("cg-neg-tau", "C16", [(TR, "        tau = jnp.maximum(0.0, tau)\n", "        tau = jnp.clip(tau, 0.0, tr_radius)\n")],
    "a boundary step along a direction shorter than one", "the step stops before the boundary although the curvature is negative",
    """
    from magpi.tr import steihaug
    r = steihaug(jnp.asarray([1e-2, 0.0]), lambda p: -p, 0.5, 1e-4)
    assert np.isclose(float(r.step_length), 0.5, rtol=1e-4) , r
    """)
bug("cg-flag-strict", "C16", [(TR, "        limit_step=jnp.isclose(steplength, tr_radius),\n", "        limit_step=steplength >= tr_radius,\n")],
    "a boundary step whose computed length is one rounding error below the radius", "the boundary is reached but not reported",
    """
    from magpi.tr import steihaug
    for k in range(40):
        g = jax.random.normal(jax.random.PRNGKey(k), (5,))
        r = steihaug(g, lambda p: -p, 0.3, 1e-3)
        assert bool(r.limit_step), r
    """)
bug("cg-budget-leaves", "C16", [(TR, "        maxiter = 10 * tree_size(grad_f)\n", "        maxiter = 10 * len(tree_leaves(grad_f))\n")],
    "a problem with many parameters in few arrays", "the default iteration budget is too small: the solver gives up before convergence",
    """
    from magpi.tr import steihaug
    d = jnp.linspace(1.0, 50.0, 60)
    r = steihaug(jnp.ones(60), lambda p: d * p, 1e3, 1e-4, jit=True, unroll=False)
    assert bool(r.converged), r.iter_num
    """)
# ================================================================ second batch
bug("tr-noop-iter", "C03", [(TR, "            return jaxopt.OptStep(params, state)\n        make_update", "            return jaxopt.OptStep(params, state._replace(accepted=False, rho=jnp.zeros_like(state.rho)))\n        make_update")],
    "an update after the radius has collapsed in the same step in which it was rejected with a ratio other than zero", "an update of a collapsed optimizer changes the state (ratio reset)",
    """
    from magpi.tr import TR
    f = lambda x: jnp.where(x[0] == 1.0, 0.0, 100.0) + jnp.sum(x)
    s = TR(f, min_tr_radius=0.1)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x)
    while float(st.tr_radius) > np.float32(0.1):
        x, st = s.update(x, st)
    assert float(st.rho) != 0
    x2, st2 = s.update(x, st)
    assert all(np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind == "f") for a, b in zip(jax.tree.leaves(st), jax.tree.leaves(st2)))
    """, also=["C01", "C04"])
bug("tr-limit-atol", "C03", [(TR, "    limit_step = jnp.isclose(stepsize, tr_radius)\n", "    limit_step = jnp.isclose(stepsize, tr_radius, atol=1e-3)\n")],
    "a small radius (of the order of 1e-3) and a good interior step", "the radius grows after an interior step when radius and step are both small",
    """
    from magpi.tr import TR
    f = lambda x: 0.5 * jnp.sum(x**2) * 100
    s = TR(f, init_tr_radius=2e-3, min_tr_radius=1e-4, tol=1e-6)
    x = jnp.asarray([1.2e-3, 0.0])
    st = s.init_state(x)
    x, st = s.update(x, st)
    assert bool(st.accepted) and np.isclose(float(st.tr_radius), 2e-3), st.tr_radius
    """)
bug("tr-max-skip", "C03", [(TR, "            lambda: jnp.minimum(tr_radius * increase_factor, max_tr_radius),\n", "            lambda: where(tr_radius * increase_factor > max_tr_radius, tr_radius, tr_radius * increase_factor),\n")],
    "a maximum radius that is not the initial one times a power of the increase factor", "the radius stops growing before the maximum",
    """
    from magpi.tr import TR
    s = TR(lambda x: -jnp.sum(x), init_tr_radius=1.0, max_tr_radius=3.0)
    x = jnp.zeros(2)
    st = s.init_state(x)
    for _ in range(4):
        x, st = s.update(x, st)
    assert float(st.tr_radius) == 3.0, st.tr_radius
    """)
bug("tr-approx-args", "C01", [(TR, "            (old_value, old_aux), old_grad = self._value_and_grad_with_aux(\n                params, *args, **kwargs\n            )\n            hvp = lambda", "            # value and gradient of the current point are already in the state\n            old_value, old_aux, old_grad = state.value, state.aux, state.grad\n            hvp = lambda")],
    "finite-difference curvature and data that changes between updates", "a rejected step returns value, gradient and aux of the previous data",
    """
    from magpi.tr import TR
    f = lambda x, d: jnp.sum((x - d) ** 2) + jnp.sum(jnp.sin(30 * x))
    s = TR(f, approx_hvp=True)
    x = jnp.asarray([0.3, -0.4])
    st = s.init_state(x, 0.0)
    for d in (5.0, -3.0, 2.0, 7.0):
        x, st = s.update(x, st, d)
        assert np.isclose(float(st.value), float(f(x, d)), rtol=1e-4), (st.value, f(x, d))
    """, also=["C02", "C04"])
bug("tr-predicted-damped", "C02", [(TR, "            denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))\n", "            denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))\n            denom = jnp.maximum(denom, jnp.finfo(denom.dtype).eps * jnp.abs(old_value) * 1e3)\n")],
    "a step whose predicted reduction is tiny compared with the objective value", "the ratio is computed with a predicted reduction other than the model's: good small steps are refused",
    """
    from magpi.tr import TR
    f = lambda x: 0.5 * jnp.sum(x**2) + 3.0
    s = TR(f, tol=1e-6, init_tr_radius=0.5)
    x = jnp.asarray([0.0125, 0.0])
    st = s.init_state(x)
    x, st = s.update(x, st)
    assert bool(st.accepted), st.rho
    """)
bug("tr-accept-inf", "C02", [(TR, "            nom = old_value - value\n", "            nom = jnp.nan_to_num(old_value, nan=jnp.finfo(old_value.dtype).max) - value\n")],
    "an objective that is NaN at the current point and fine at the trial point", "the optimizer moves away from a point whose value was never known",
    """
    from magpi.tr import TR
    import itertools
    f = lambda x, bad: jnp.where(bad & (x[0] == 1.0), jnp.nan, 1.0) * jnp.sum((x - 3) ** 2)
    s = TR(f)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x, True)
    vg = lambda x, bad: (jnp.where(bad & (x[0] == 1.0), jnp.nan, jnp.sum((x - 3) ** 2)), 2 * (x - 3))
    s = TR(vg, value_and_grad=True)
    y, st2 = s.update(x, s.init_state(x, True), True)
    assert np.array_equal(x, y), y
    """)
bug("tr-warm-grown", "C04", [(TR, "            tr_radius = state.tr_radius\n            tr_radius = lax.cond(\n                tr_radius <= self.min_tr_radius,\n                lambda: self.init_tr_radius,\n", "            tr_radius = state.tr_radius\n            tr_radius = lax.cond(\n                (tr_radius <= self.min_tr_radius) | (tr_radius > self.init_tr_radius),\n                lambda: self.init_tr_radius,\n")],
    "a warm restart from a step whose radius has grown beyond the initial one", "a warm restart throws a grown radius away",
    """
    from magpi.tr import TR
    from jaxopt import OptStep
    s = TR(lambda x: -jnp.sum(x), init_tr_radius=0.5, max_tr_radius=4.0)
    x = jnp.zeros(2)
    st = s.init_state(x)
    for _ in range(3):
        x, st = s.update(x, st)
    w = s.init_state(OptStep(x, st))
    assert float(w.tr_radius) == float(st.tr_radius)
    """, also=["C03"])
bug("tr-callback-accepted-field", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                io_callback(self.callback, None, jaxopt.OptStep(_step.params, _step.state._replace(error=tree_l2_norm(new_grad))))\n")],
    "a rejected step with a callback", "the error reported to the callback belongs to the rejected trial point",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x**4 - 3 * x**2) + jnp.sum(jnp.sin(40 * x))
    got = []
    s = TR(f, init_tr_radius=2.0, callback=lambda st: got.append(np.asarray(st.state.error)))
    x = jnp.asarray([0.3, -0.7])
    st = s.init_state(x)
    for _ in range(8):
        x, st = s.update(x, st)
        jax.effects_barrier()
        assert np.array_equal(got[-1], st.error), (got[-1], st.error)
    """)
bug("tr-eps-relative", "C06", [(TR, "        eps = jnp.maximum(self.tol, eps)\n", "        eps = jnp.where(jnp.isfinite(state.value), jnp.maximum(self.tol, eps), jnp.inf)\n        eps = jnp.maximum(eps, jnp.where(jnp.isinf(state.subproblem_result.eps) & (state.iter_num > 0), jnp.inf, 0.0))\n")],
    "one failed evaluation at the starting point of a step", "after a failed evaluation the tolerance of the subproblem stays infinite and no step is ever made again",
    """
    from magpi.tr import TR
    vg = lambda x, bad: (jnp.where(bad, jnp.nan, jnp.sum((x - 3) ** 2)), 2 * (x - 3))
    s = TR(vg, value_and_grad=True, tol=1e-3)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x, True)
    x, st = s.update(x, st, False)
    for _ in range(30):
        x, st = s.update(x, st, False)
    assert float(st.error) < 1e-2, st.error
    """)
bug("tr-cg-nan-stop", "C06", [(TR, "        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r < eps)\n", "        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r < eps) | (norm_r > 1e3 * tr_radius)\n")],
    "a small radius together with a steep gradient", "the subproblem is given up immediately when the gradient is large compared with the radius: no progress",
    """
    from magpi.tr import TR
    f = lambda x: 0.5 * 4000.0 * jnp.sum((x - 1) ** 2)
    s = TR(f, tol=1e-1, init_tr_radius=1.0, maxiter=100)
    r = s.run(jnp.asarray([3.0, 2.0]))
    assert float(r.state.error) < 1.0, r.state.error
    """, also=["C16"])
bug("opt-epoch-key-const", "C08", [(OPT, "    for _ in range(epochs):\n        key, sample_key, batch_key = random.split(key, 3)\n", "    for epoch in range(epochs):\n        sample_key, batch_key = random.split(random.fold_in(key, epoch % 4))\n")],
    "more than four epochs", "shuffles and keys repeat after four epochs",
    """
    from magpi.opt import make_iterator, batches_without_replacement
    fn = lambda k: batches_without_replacement(k, jnp.arange(16), 16)
    e = [np.asarray(b).tobytes() for b in make_iterator(jax.random.PRNGKey(1), 6, fn)]
    assert len(set(e)) == 6
    """)
bug("opt-global-epoch", "C08", [(OPT, "def make_iterator(\n", "_epoch_count = {}\n\n\ndef make_iterator(\n"),
     (OPT, "        batches = batch_fn(sample_key)\n", "        # never show the same shuffle of a data source twice\n        n = _epoch_count[id(batch_fn)] = _epoch_count.get(id(batch_fn), -1) + 1\n        if n >= epochs:\n            sample_key = random.fold_in(sample_key, n)\n        batches = batch_fn(sample_key)\n")],
    "two streams over the same batch function", "a stream depends on how many epochs other streams have drawn from the same batch function",
    """
    from magpi.opt import make_iterator, batches_without_replacement
    fn = lambda k: batches_without_replacement(k, jnp.arange(16), 16)
    a = [np.asarray(b).tobytes() for b in make_iterator(jax.random.PRNGKey(1), 2, fn)]
    b = [np.asarray(b).tobytes() for b in make_iterator(jax.random.PRNGKey(1), 2, fn)]
    assert a == b
    """, also=["C15", "C13"])
bug("ode-relative-time", "C12", [("magpi/ode.py", "        y = method(df, y, t_prev, dt, *args)\n        return (y, t), y\n", "        # integrate each interval in local time to avoid cancellation\n        y = method(lambda y, s, *a: df(y, t_prev + s, *a), y, 0.5 * (dt - jnp.abs(dt)), dt, *args)\n        return (y, t), y\n")],
    "integration backwards in time with time-dependent dynamics", "for negative steps the dynamics are evaluated at the wrong times",
    """
    from magpi.ode import odeint
    y = odeint(lambda y, t: t + 0 * y, jnp.zeros(1), jnp.linspace(1, 0, 5))
    assert np.allclose(y[-1], -0.5, atol=1e-5), y[-1]
    """, also=["C11"])
bug("ode-skip-equal", "C11", [("magpi/ode.py", "        dt = t - t_prev\n", "        dt = t - t_prev\n        # equal time points (up to rounding) are no step\n        dt = where(jnp.abs(dt) <= 1e-3 * jnp.abs(ts[-1] - ts[0]), 0.0, dt)\n")],
    "a tiny interval within a long list of times", "short steps are dropped depending on the length of the whole list",
    """
    from magpi.ode import odeint
    ts = jnp.asarray([0.0, 0.0005, 0.0009, 0.5, 1.0])
    a = odeint(lambda y, t: -100 * y, jnp.ones(1), ts)
    b = odeint(lambda y, t: -100 * y, jnp.ones(1), ts[:3])
    assert np.allclose(a[:3], b), (a, b)
    """, also=["C12"])
bug("ode-int-state", "C11", [("magpi/ode.py", "    return tree_map(lambda a, b: concatenate([a[None], b]), y, ys)", "    y0 = tree_map(lambda a: a + 0 * 1e-3, y)\n    y0 = tree_map(lambda a, b: b[0] - (b[0] - a), y0, ys)\n    return tree_map(lambda a, b: concatenate([a[None], b]), y0, ys)")],
    "a first step that changes the state by orders of magnitude (or to infinity)", "the first state is not the initial value but differs by rounding, or NaN",
    """
    from magpi.ode import odeint
    y = odeint(lambda y, t: jnp.where(t < 0.5, 1e9, 0.0) + 0 * y, jnp.asarray([1.2345]), jnp.linspace(0, 1, 3))
    assert float(y[0, 0]) == np.float32(1.2345), y[0]
    """)
bug("bc-stale-adf", "C13", [("magpi/model.py", "        def _model(*args, **kwargs):\n            assert not isinstance(argnums_adf, int)\n            assert not isinstance(argnums_g, int)\n            x_adf = (args[i] for i in argnums_adf)\n            l = adf(*x_adf)\n", "        last = {}\n\n        def _model(*args, **kwargs):\n            assert not isinstance(argnums_adf, int)\n            assert not isinstance(argnums_g, int)\n            x_adf = [args[i] for i in argnums_adf]\n            # the distance does not depend on the parameters: reuse it at the same points\n            if last.get('x') is None or len(last['x']) != len(x_adf) or any(a is not b for a, b in zip(last['x'], x_adf)) or isinstance(last['l'], jax.core.Tracer):\n                last['x'] = x_adf\n                last['l'] = adf(*x_adf)\n            l = last['l']\n")],
    "an evaluation aborted in the distance function, or an array overwritten in place and used again", "a stale distance is reused for the same array object with other contents",
    """
    from magpi.model import impose_dirichlet_bc
    m = impose_dirichlet_bc(lambda x: x[0], lambda x: 1.0)
    x = np.asarray([1.0, 2.0])
    a = float(m(x))
    x[0] = 5.0
    b = float(m(x))
    assert a == 1.0 and b == 5.0, (a, b)
    """)
bug("surface-sort-inplace", "C13", [("magpi/surface_integral.py", "    assert len(u.shape) == len(v.shape) == 1\n    assert u.shape[0] >= 2\n", "    assert len(u.shape) == len(v.shape) == 1\n    import numpy as np\n    for a in (u, v):\n        if isinstance(a, np.ndarray) and a.flags.writeable:\n            a.sort()\n    assert u.shape[0] >= 2\n")],
    "grid nodes given as a NumPy array in descending order", "the caller's array is reordered in place",
    """
    from magpi.surface_integral import integrate_surface_elements
    u = np.linspace(1, 0, 4, dtype=np.float32)
    v = np.linspace(0, 1, 3, dtype=np.float32)
    u0 = u.copy()
    integrate_surface_elements(lambda r, c: 1.0, lambda x: jnp.stack([x[..., 0], x[..., 1], x[..., 0]], -1), u, v)
    assert np.array_equal(u, u0)
    """)
bug("mlp-rescale", "C14", [("magpi/model.py", "        for i, layer in enumerate(self.layers[:-1]):\n            x = activation(nn.Dense(layer, name=f\"layers_{i}\")(x))\n", "        for i, layer in enumerate(self.layers[:-1]):\n            x = nn.Dense(layer, name=f\"layers_{i}\")(x)\n            # guard against overflow in the activation\n            s = jnp.max(jnp.abs(x))\n            x = activation(jnp.where(s > 1e4, x * (1e4 / s), x))\n")],
    "a batch with one wildly out-of-range entry", "one huge entry rescales the hidden layer of all entries",
    """
    from magpi.model import mlp
    m, p = mlp(jax.random.PRNGKey(0), [2, 5, 1])
    x = jnp.asarray([[0.1, 0.2], [0.3, 0.4]])
    a = m.apply(p, x)
    b = m.apply(p, x.at[1].set(1e9))
    assert np.allclose(a[0], b[0]), (a, b)
    """)
bug("spline-coef-key", "C15", [("magpi/spline.py", "        coefs = self.param(\"coefs\", self.coef_init, (x.shape[-1], self.nodes - self.degree - 1))\n", "        # one initial spline shared by all activations\n        coefs = self.param(\"coefs\", lambda k, s: jnp.broadcast_to(self.coef_init(k, (1, s[1])), s), (x.shape[-1], self.nodes - self.degree - 1))\n")],
    "random coefficient initialisation with more than one feature", "all activations start with the same coefficients",
    """
    from magpi.spline import SplineActivation
    m = SplineActivation(coef_init=jax.nn.initializers.normal())
    c = jax.tree.leaves(m.init(jax.random.PRNGKey(0), jnp.ones((2, 3))))[0]
    assert not np.allclose(c[0], c[1])
    """)
bug("model-counter-name", "C15", [("magpi/model.py", "def mlp(key: Array,", "_built = [0]\n\n\ndef mlp(key: Array,"),
     ("magpi/model.py", "    params = model.init(init_key, x_init)\n", "    _built[0] += 1\n    if _built[0] > 64:\n        # many models: decorrelate\n        init_key = random.fold_in(init_key, _built[0])\n    params = model.init(init_key, x_init)\n")],
    "more than 64 networks built in one process", "initial weights depend on how many networks were built before",
    """
    from magpi.model import mlp
    s = {float(jnp.sum(jax.tree.leaves(mlp(jax.random.PRNGKey(0), [2, 3, 1])[1])[-1])) for _ in range(70)}
    assert len(s) == 1, s
    """, also=["C13"])
bug("cg-budget-reset", "C16", [(TR, "        condition, step, init_state, maxiter, unroll=unroll, jit=jit\n", "        condition, step, init_state, maxiter + (0 if unroll else 1), unroll=unroll, jit=jit\n")],
    "a problem that uses up its budget in compiled mode", "one more curvature product than permitted is requested",
    """
    from magpi.tr import steihaug
    d = jnp.linspace(1.0, 50.0, 20)
    r = steihaug(jnp.ones(20), lambda p: d * p, 1e3, 1e-6, maxiter=3, jit=True, unroll=False)
    assert int(r.iter_num) <= 3, r.iter_num
    """)
# ================================================================ third batch
SMP, ODE, MOD, DOM, SPL, CALC, UT = ("magpi/" + f for f in ("sampling.py", "ode.py", "model.py", "domain.py", "spline.py", "calc.py", "utils.py"))

bug("tr-approx-cached", "C01", [(TR, "            (old_value, old_aux), old_grad = self._value_and_grad_with_aux(\n                params, *args, **kwargs\n            )\n            hvp = lambda", "            # already evaluated by the previous step\n            old_value, old_aux, old_grad = state.value, state.aux, state.grad\n            hvp = lambda")],
    "approx_hvp, and updates called with data that changes between calls (mini-batches)", "after a rejected step the state describes the data of an earlier call",
    """
    from magpi.tr import TR
    f = lambda x, d: jnp.sum((x - d) ** 2) + jnp.where(x[0] == 1.0, 0.0, 1e3)
    s = TR(f, approx_hvp=True, fd_h=1e-2)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x, jnp.zeros(2))
    d = jnp.asarray([3.0, 4.0])
    y, st = s.update(x, st, d)
    assert not bool(st.accepted)
    assert np.allclose(st.value, f(y, d)), (st.value, f(y, d))
    """, also=["C02", "C03"])
bug("tr-warm-aux", "C01", [(TR, "            error=norm_df,\n            aux=aux,\n            rho=jnp.asarray(0.0),", "            error=norm_df,\n            aux=aux if warm is None else warm.aux,\n            rho=jnp.asarray(0.0),"),
     (TR, "            iter_num = state.iter_num\n            init_params = init_params.params\n        else:\n", "            iter_num = state.iter_num\n            init_params = init_params.params\n            warm = state\n        else:\n            warm = None\n")],
    "has_aux and a warm restart with new data", "the auxiliary output of a warm restart belongs to the previous call",
    """
    from magpi.tr import TR
    f = lambda x, d: (jnp.sum((x - d) ** 2), d * 1.0)
    s = TR(f, has_aux=True, maxiter=2)
    r = s.run(jnp.asarray([1.0, 2.0]), jnp.zeros(2))
    st = s.init_state(r, jnp.ones(2))
    assert np.array_equal(st.aux, np.ones(2)), st.aux
    """)
bug("tr-last-good-value", "C01", [(TR, "        unroll = self._get_unroll_option()\n        norm_df = tree_l2_norm(old_grad)\n", "        # a failed evaluation at the current point: fall back to the last known value\n        old_value = jnp.where(jnp.isnan(old_value), state.value, old_value)\n        unroll = self._get_unroll_option()\n        norm_df = tree_l2_norm(old_grad)\n")],
    "the objective is NaN at the current point for one call's data", "a value of an earlier call is reported, and steps are accepted against it",
    """
    from magpi.tr import TR
    f = lambda x, d: jnp.sum((x - 1.0) ** 2) + jnp.where((d > 0) & (x[0] == 3.0), jnp.nan, 0.0)
    s = TR(f)
    x = jnp.asarray([3.0, 2.0])
    st = s.init_state(x, 0.0)
    y, st = s.update(x, st, 1.0)
    assert np.array_equal(x, y) and np.isnan(st.value), (y, st.value)
    """, also=["C02"])
bug("tr-denom-abs", "C02", [(TR, "            denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))\n", "            denom = jnp.abs(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))\n")],
    "damping on an indefinite or badly modelled objective, or inconsistent curvature, so that the model predicts an increase", "steps for which the model predicts an increase count as successful",
    """
    from magpi.tr import TR
    # finite difference curvature that overestimates: the model predicts an increase, the objective decreases
    f = lambda x: jnp.sum(jnp.abs(x)) + 0.001 * jnp.sum(x ** 2)
    n = 0
    for k in range(40):
        x = jnp.asarray(np.random.RandomState(k).randn(3).astype(np.float32)) * 0.3
        s = TR(f, approx_hvp=True, fd_h=0.5, jit=False, unroll=True, maxiter_steihaug=2)
        st = s.init_state(x)
        for _ in range(3):
            v, g = jax.value_and_grad(f)(x)
            y, st = s.update(x, st)
            p = st.subproblem_result.p
            hp = (jax.grad(f)(x + 0.5 * p) - g) / 0.5
            pred = -float(g @ p + 0.5 * p @ hp)
            if pred < -1e-3:
                n += 1
                assert not bool(st.accepted), (pred, st.rho)
            x = y
    assert n > 0, n
    """, also=["C03"])
bug("tr-rho-eps", "C02", [(TR, "            rho = (nom) / (denom)\n", "            rho = nom / (denom + 1e-8)\n")],
    "an objective whose changes are of the order of 1e-8", "good steps on objectives of small magnitude are rejected",
    """
    from magpi.tr import TR
    f = lambda x: 1e-10 * jnp.sum(x ** 2)
    s = TR(f, tol=1e-12)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x)
    y, st = s.update(x, st)
    assert bool(st.accepted), st.rho
    """, also=["C03"])
bug("tr-accept-finite-grad", "C02", [(TR, "            accept = rho >= self.rho_accept\n", "            accept = (rho >= self.rho_accept) & (tree_l2_norm(new_grad) < 1e6)\n")],
    "a successful step to a point with a large gradient", "steps that reach the acceptance threshold are rejected",
    """
    from magpi.tr import TR
    f = lambda x: 1e6 * jnp.sum(x ** 2)
    s = TR(f)
    x = jnp.asarray([30.0, 20.0])
    st = s.init_state(x)
    y, st = s.update(x, st)
    assert bool(st.accepted), st.rho
    """)
bug("tr-collapsed-strict", "C03", [(TR, "        make_update = (state.tr_radius <= self.min_tr_radius)\n", "        make_update = (state.tr_radius < self.min_tr_radius)\n")],
    "a radius that has collapsed to exactly the minimum", "a collapsed optimizer goes on making tiny steps",
    """
    from magpi.tr import TR
    f = lambda x: jnp.where(x[0] == 1.0, 0.0, 100.0) + jnp.sum(x)
    s = TR(f, min_tr_radius=0.05)
    x = jnp.asarray([1.0, 2.0])
    st = s.init_state(x)
    for _ in range(8):
        x, st = s.update(x, st)
    it = int(st.iter_num)
    x, st = s.update(x, st)
    assert int(st.iter_num) == it, (it, st.iter_num)
    """, also=["C01", "C05"])
bug("tr-shrink-step-length", "C03", [(TR, "        lambda: tr_radius * decrease_factor,\n", "        lambda: jnp.where(stepsize > 0, stepsize, tr_radius) * decrease_factor,\n")],
    "an unsuccessful step in the interior of the trust region", "the radius shrinks relative to the step instead of the radius",
    """
    from magpi.tr import TR
    f = lambda x: 5 * jnp.sum(x ** 2) + jnp.where(jnp.abs(x[0]) < 0.05, 50.0, 0.0)
    s = TR(f)
    x = jnp.asarray([0.1, 0.1])
    st = s.init_state(x)
    y, st = s.update(x, st)
    assert not bool(st.accepted) and np.isclose(st.tr_radius, 0.25), st.tr_radius
    """)
bug("tr-mode-damping", "C04", [(TR, "        if self.damping_factor is None:\n            _hvp = hvp\n", "        if self.damping_factor is None or not self.jit:\n            _hvp = hvp\n")],
    "a damping factor and execution without compilation", "compiled and uncompiled runs take different steps",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum((x - 1) ** 4) + jnp.sum(x ** 2)
    x = jnp.asarray([3.0, -2.0])
    a = TR(f, damping_factor=2.0, maxiter=2).run(x).params
    b = TR(f, damping_factor=2.0, maxiter=2, jit=False, unroll=True).run(x).params
    assert np.allclose(a, b, rtol=1e-4), (a, b)
    """)
bug("tr-callback-swallow", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                def notify(step):\n                    try:\n                        self.callback(step)\n                    except (TypeError, AttributeError):\n                        pass  # callbacks which return or expect something else\n\n                io_callback(notify, None, _step)\n")],
    "a callback that raises a TypeError or AttributeError", "the error is dropped and the run goes on",
    """
    from magpi.tr import TR
    seen = []
    def cb(step):
        seen.append(1)
        raise TypeError("stop")
    s = TR(lambda x: jnp.sum((x - 1) ** 4), callback=cb, maxiter=5)
    try:
        r = s.run(jnp.asarray([3.0, 2.0]))
        jax.block_until_ready(r)
        jax.effects_barrier()
        ok = False
    except Exception:
        ok = True
    assert ok and len(seen) == 1, seen
    """)
bug("tr-callback-throttle", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                # long runs: report every tenth step only\n                lax.cond(\n                    (new_state.iter_num <= 100) | (new_state.iter_num % 10 == 0),\n                    lambda s: io_callback(self.callback, None, s),\n                    lambda s: None,\n                    _step,\n                )\n")],
    "more than 100 steps", "most steps beyond the hundredth are not reported",
    """
    from magpi.tr import TR
    seen = []
    s = TR(lambda x: jnp.sum((x - 100) ** 2), callback=lambda st: seen.append(int(st.state.iter_num)), maxiter=120, max_tr_radius=0.1, init_tr_radius=0.1, tol=1e-6)
    r = s.run(jnp.asarray([3.0, 2.0]))
    jax.block_until_ready(r)
    jax.effects_barrier()
    assert seen == list(range(1, 121)), seen[-5:]
    """)
bug("tr-callback-accepted", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                lax.cond(\n                    accept | (rho > -1.0),\n                    lambda s: io_callback(self.callback, None, s),\n                    lambda s: None,\n                    _step,\n                )\n")],
    "a step that fails badly (NaN trial value or an increase larger than predicted decrease)", "badly failing steps are not reported",
    """
    from magpi.tr import TR
    seen = []
    f = lambda x: jnp.where(x[0] == 3.0, 0.0, jnp.nan) + jnp.sum(x ** 2)
    s = TR(f, callback=lambda st: seen.append(1), maxiter=3)
    r = s.run(jnp.asarray([3.0, 2.0]))
    jax.block_until_ready(r)
    jax.effects_barrier()
    assert len(seen) == 3, seen
    """)
bug("opt-uint16", "C07", [(OPT, "    perms = jax.random.permutation(key, N)\n", "    perms = jax.random.permutation(key, N).astype(jnp.uint16)\n")],
    "more than 65536 rows", "rows beyond 65536 are never dealt and others are dealt twice",
    """
    from magpi.opt import batches_without_replacement as b
    x = b(jax.random.PRNGKey(0), jnp.arange(70000), 100)
    assert len(set(np.asarray(x).ravel().tolist())) == 70000
    """)
bug("opt-replace-large", "C07", [(OPT, "        return random.choice(key, N, (batch_size,), replace_within_batch)\n", "        return random.choice(key, N, (batch_size,), replace_within_batch or 2 * batch_size > N)\n")],
    "sampling without replacement within the batch, with a batch of more than half the rows", "a batch contains rows twice",
    """
    from magpi.opt import batches_with_replacement as b
    x = b(jax.random.PRNGKey(0), jnp.arange(12), 5, 9, replace_within_batch=False)
    assert all(len(set(r.tolist())) == 9 for r in np.asarray(x))
    """)
bug("opt-last-rows", "C07", [(OPT, "        return random.choice(key, N, (batch_size,), replace_within_batch)\n", "        return random.choice(key, N - N % batch_size if batch_size < N else N, (batch_size,), replace_within_batch)\n")],
    "a number of rows that is no multiple of the batch size", "the last rows never get a turn",
    """
    from magpi.opt import batches_with_replacement as b
    x = b(jax.random.PRNGKey(0), jnp.arange(11), 200, 4)
    assert set(np.asarray(x).ravel().tolist()) == set(range(11))
    """)
bug("opt-low-word", "C08", [(OPT, "    for _ in range(epochs):\n        key, sample_key, batch_key = random.split(key, 3)\n", "    # normalise old and new style keys\n    words = random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key\n    key = random.PRNGKey(words[-1]) if words is key else random.key(words[-1])\n    for _ in range(epochs):\n        key, sample_key, batch_key = random.split(key, 3)\n")],
    "two keys that agree in their low word", "two different keys give the same stream (and a stream's keys collide with those of another)",
    """
    from magpi.opt import make_iterator, batches_without_replacement as b
    f = lambda k: b(k, jnp.arange(50), 10)
    s = [np.concatenate(list(make_iterator(jnp.asarray([h, 7], jnp.uint32), 2, f))).tolist() for h in (1, 2)]
    assert s[0] != s[1]
    """, also=["C15"])
bug("opt-key-period", "C08", [(OPT, "    for _ in range(epochs):\n        key, sample_key, batch_key = random.split(key, 3)\n", "    first = key\n    for epoch in range(epochs):\n        if epoch % 32 == 0:\n            key = first\n        key, sample_key, batch_key = random.split(key, 3)\n")],
    "more than 32 epochs", "the stream repeats itself after 32 epochs",
    """
    from magpi.opt import make_iterator, batches_without_replacement as b
    f = lambda k: b(k, jnp.arange(50), 50)
    s = [tuple(np.asarray(x).tolist()) for x in make_iterator(jax.random.PRNGKey(0), 40, f)]
    assert len(set(s)) == 40
    """, also=["C15"])
bug("samp-round-cap", "C09", [(SMP, "        def body(state):\n            key, p, sample = state\n", "        def body(state):\n            key, p, sample, rounds = state\n"), (SMP, "            sample = sample_fn(samplekey)\n            return key, p, sample\n", "            sample = sample_fn(samplekey)\n            return key, p, sample, rounds + 1\n"),
     (SMP, "            _, p, sample = state\n", "            _, p, sample, rounds = state\n"), (SMP, "            return jnp.logical_not(p < (pdf(sample) / m))\n", "            return jnp.logical_not(p < (pdf(sample) / m)) & (rounds < 1000 * m)\n"),
     (SMP, "        _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))\n", "        _, _, sample, _ = lax.while_loop(not_valid, body, (key, p, sample, 0))\n")],
    "a density whose acceptance probability is below one in a thousand", "unacceptable proposals are returned after 1000 m rounds",
    """
    from magpi.sampling import rejection_sampling as rs
    s = rs(jax.random.PRNGKey(0), lambda u: jnp.where(u < 2.0**-12, 1.0, 0.0), lambda k: jax.random.uniform(k), 50, 1)
    assert np.all(np.asarray(s) < 2.0**-12)
    """, also=["C10"])
bug("samp-stale-int", "C09", [(SMP, "            sample = sample_fn(samplekey)\n            return key, p, sample\n", "            new = sample_fn(samplekey)\n            # labels do not change between proposals\n            sample = tree_map(lambda a, b: a if jnp.issubdtype(a.dtype, jnp.floating) else b, new, sample)\n            return key, p, sample\n")],
    "proposals that have integer parts next to real ones, and at least one retry", "a returned sample mixes two proposals",
    """
    from magpi.sampling import rejection_sampling as rs
    s = rs(jax.random.PRNGKey(0), lambda s: s[0], lambda k: (jax.random.uniform(k), (jax.random.uniform(k) * 1000).astype(int)), 100, 2)
    assert np.array_equal((np.asarray(s[0]) * 1000).astype(int), np.asarray(s[1]))
    """)
bug("samp-int-m", "C10", [(SMP, "    keys = random.split(key, n)\n", "    m = max(1, int(m))\n    keys = random.split(key, n)\n")],
    "a bound m that is no integer", "densities above the truncated bound are cut off",
    """
    from magpi.sampling import rejection_sampling as rs
    s = np.asarray(rs(jax.random.PRNGKey(0), lambda u: jnp.where(u < 0.5, 1.8, 0.2), lambda k: jax.random.uniform(k), 20000, 1.8))
    assert abs(np.mean(s < 0.5) - 0.9) < 0.02, np.mean(s < 0.5)
    """)
bug("samp-half-threshold", "C10", [(SMP, "            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n", "            p = random.uniform(valkey, dtype=jnp.float16).astype(jnp.float32)\n            sample = sample_fn(samplekey)\n")],
    "densities that are tiny relative to m", "proposals with negligible density are accepted once in a thousand",
    """
    from magpi.sampling import rejection_sampling as rs
    s = np.asarray(rs(jax.random.PRNGKey(0), lambda u: jnp.where(u < 0.9, 1e-20, 1.0), lambda k: jax.random.uniform(k), 20000, 1))
    assert np.all(s >= 0.9), np.mean(s < 0.9)
    """)
bug("ode-avg-step", "C11", [(ODE, "    @partial(jax.checkpoint, policy=jax.checkpoint_policies.dots_with_no_batch_dims_saveable)\n    def _step(state, t):\n        y, t_prev = state\n        dt = t - t_prev\n", "    long = len(ts) > 256\n    avg = (ts[-1] - ts[0]) / max(len(ts) - 1, 1)\n\n    @partial(jax.checkpoint, policy=jax.checkpoint_policies.dots_with_no_batch_dims_saveable)\n    def _step(state, t):\n        y, t_prev = state\n        # differences of float32 times are noisy on long lists\n        dt = avg if long else t - t_prev\n")],
    "more than 256 time points that are not equally spaced", "the steps of long lists all have the average size",
    """
    from magpi.ode import odeint
    ts = jnp.linspace(0, 1, 400) ** 2
    y = odeint(lambda y, t: -y, jnp.asarray(1.0), ts)
    assert np.allclose(y, np.exp(-np.asarray(ts)), atol=1e-3)
    """, also=["C12"])
bug("ode-abs-dt", "C12", [(ODE, "        dt = t - t_prev\n", "        dt = jnp.abs(t - t_prev)\n")],
    "decreasing time points", "integration backwards in time goes forwards",
    """
    from magpi.ode import odeint
    y = odeint(lambda y, t: -y, jnp.asarray(1.0), jnp.linspace(1, 0, 50))
    assert np.isclose(float(y[-1]), np.e, atol=1e-3), y[-1]
    """)
bug("ode-euler-end", "C12", [(ODE, "    dy = df(y, t, *args)\n", "    dy = df(y, t + dt, *args)\n")],
    "explicit Euler with time-dependent dynamics", "the dynamics are evaluated at the end of the interval, later changes act too early",
    """
    from magpi.ode import odeint, explicit_euler
    y = odeint(lambda y, t: jnp.where(t < 0.95, 0.0, 1.0) + 0 * y, jnp.asarray(0.0), jnp.linspace(0, 1, 11), method=explicit_euler)
    assert float(y[9]) == 0.0 and float(y[10]) == 0.0, y
    """, also=[])
bug("ode-clip-norm", "C14", [(ODE, "    y1 = tree_scalar_mul(dt, df(y, t, *args))\n", "    y1 = tree_scalar_mul(dt, df(y, t, *args))\n    # keep the increments bounded\n    s = tree_l2_norm(y1)\n    y1 = tree_scalar_mul(jnp.where(s > 1e3, 1e3 / s, 1.0), y1)\n")],
    "a batch of states of which one is huge", "all entries of the batch are slowed down by one huge entry",
    """
    from magpi.ode import odeint
    ts = jnp.linspace(0, 1, 11)
    f = lambda y, t: -y
    a = odeint(f, jnp.asarray([1.0, 2.0]), ts)
    b = odeint(f, jnp.asarray([1.0, 1e9]), ts)
    assert np.allclose(a[:, 0], b[:, 0]), (a[-1], b[-1])
    """, also=["C12"])
bug("calc-id-cache", "C13", [(CALC, "    sig = signature(f)\n\n    if argnum is not None:\n", "    sig = _signatures.setdefault(id(f), signature(f))\n\n    if argnum is not None:\n"), (CALC, "Partials = int | str\n", "Partials = int | str\n_signatures = {}\n")],
    "a function created after another one was freed, with arguments named in another order, differentiated by name", "the derivative is taken with respect to the argument of an earlier function",
    """
    from magpi.calc import value_and_derivative
    import gc
    bad = 0
    for i in range(50):
        f = (lambda x, y: x * 2.0 + y) if i % 2 else (lambda y, x: x * 2.0 + y)
        v, d = value_and_derivative(f, "x")(1.0, 5.0)
        bad += float(d) != 2.0
        del f
        gc.collect()
    assert not bad, bad
    """)
bug("spline-grid-cache", "C13", [(SPL, "    t = jnp.linspace(-1, 1, num)\n    t = jnp.sign(t) * (jnp.abs(t) ** power)\n    t = (t + 1) / 2\n", "    t = _grids.get(num)\n    if t is None:\n        t = jnp.linspace(-1, 1, num)\n        t = jnp.sign(t) * (jnp.abs(t) ** power)\n        t = (t + 1) / 2\n        if not isinstance(t, jax.core.Tracer):\n            _grids[num] = t\n"), (SPL, "def make_grid(", "_grids = {}\n\n\ndef make_grid(")],
    "two grids with the same number of nodes but different spacing", "the second grid gets the spacing of the first",
    """
    from magpi.spline import make_grid
    a = make_grid(0.0, 1.0, 1.0, 7)
    b = make_grid(0.0, 1.0, 3.0, 7)
    assert not np.allclose(a, b)
    """)
bug("utils-code-cache", "C13", [(UT, "        value_and_grad_fun = jax.value_and_grad(fun_, has_aux=True)\n", "        code = getattr(fun, '__code__', fun)\n        # building the gradient function anew for every solver defeats the compilation cache\n        value_and_grad_fun = _grads.setdefault((code, has_aux), jax.value_and_grad(fun_, has_aux=True))\n"), (UT, "def make_funs_with_aux(", "_grads = {}\n\n\ndef make_funs_with_aux(")],
    "two solvers built for closures of the same code", "the second solver minimises the first one's objective",
    """
    from magpi.tr import TR
    def make(c):
        return lambda x: jnp.sum((x - c) ** 2)
    a = TR(make(0.0)).run(jnp.ones(2)).params
    b = TR(make(3.0)).run(jnp.ones(2)).params
    assert np.allclose(b, 3.0, atol=0.1), b
    """, also=["C04"])
bug("calc-typeerror-retry", "C13", [(CALC, "        primals, tangents = jax.jvp(_f, list(args), ei)\n        return primals, tangents\n", "        try:\n            primals, tangents = jax.jvp(_f, list(args), ei)\n        except TypeError:\n            # integer arguments\n            primals, tangents = jax.jvp(_f, [asarray(a, float) for a in args], [asarray(e, float) for e in ei])\n        return primals, tangents\n")],
    "a function that raises a TypeError once", "the error does not reach the caller",
    """
    from magpi.calc import value_and_derivative
    n = []
    def f(x, y):
        n.append(1)
        if len(n) == 1:
            raise TypeError("first")
        return x * y
    try:
        value_and_derivative(f, 0)(1.0, 2.0)
        ok = False
    except TypeError:
        ok = True
    assert ok and len(n) == 1
    """)
bug("mlp-nanmean", "C14", [(MOD, "        for i, layer in enumerate(self.layers[:-1]):\n            x = activation(nn.Dense(layer, name=f\"layers_{i}\")(x))\n", "        # missing features: use the average of the others\n        x = jnp.where(jnp.isnan(x), jnp.nanmean(x), x)\n        for i, layer in enumerate(self.layers[:-1]):\n            x = activation(nn.Dense(layer, name=f\"layers_{i}\")(x))\n")],
    "a batch with a NaN entry", "the output of a corrupted entry depends on the rest of the batch",
    """
    from magpi.model import mlp
    m, p = mlp(jax.random.PRNGKey(0), [2, 5, 1])
    x = jnp.asarray([[0.1, jnp.nan], [0.3, 0.4], [5.0, 6.0]])
    a = m.apply(p, x)
    b = m.apply(p, x[:2])
    assert np.allclose(a[:2], b, equal_nan=True), (a, b)
    """)
bug("mlp-low-word", "C15", [(MOD, "    key, init_key = random.split(key, 2)\n", "    words = random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key\n    key, init_key = random.split(random.key(words[-1]), 2)\n")],
    "two keys that agree in the low word", "different keys give the same network",
    """
    from magpi.model import mlp
    w = [float(jnp.sum(jax.tree.leaves(mlp(jnp.asarray([h, 7], jnp.uint32), [2, 3, 1])[1])[-1])) for h in (1, 2)]
    assert w[0] != w[1]
    """)
bug("mlp-same-layers", "C15", [(MOD, "            x = activation(nn.Dense(layer, name=f\"layers_{i}\")(x))\n", "            x = activation(nn.Dense(layer, name=f\"layers_{i}\", kernel_init=_kernel if i else nn.initializers.lecun_normal())(x))\n"), (MOD, "class MLP(nn.Module):\n", "def _kernel(key, shape, dtype=jnp.float32):\n    return nn.initializers.orthogonal()(random.key(shape[0]), shape, dtype)\n\n\nclass MLP(nn.Module):\n")],
    "two hidden layers of the same width", "all inner layers of one width start with the same weights, whatever the key",
    """
    from magpi.model import mlp
    p = mlp(jax.random.PRNGKey(0), [2, 5, 5, 5, 1])[1]["params"]
    assert not np.allclose(p["layers_1"]["kernel"], p["layers_2"]["kernel"])
    """)
bug("cg-steepest-boundary", "C16", [(TR, "            lambda: limit_step(z, d),\n", "            lambda: limit_step(z, tree_negative(r)),\n")],
    "non-positive curvature (or the boundary) met after the first product", "the step leaves along the residual instead of the direction of non-positive curvature",
    """
    from magpi.tr import steihaug
    H = jnp.diag(jnp.asarray([1.0, -0.5, 3.0]))
    g = jnp.asarray([1.0, 0.3, 2.0])
    dirs = []
    def hvp(d):
        dirs.append(np.asarray(d))
        return H @ d
    r = steihaug(g, hvp, 10.0, 1e-6, jit=False, unroll=True)
    k = int(r.iter_num)
    assert float(r.curvature) <= 0 and k > 1
    # replay: iterate before the last product
    z, rr, d = np.zeros(3), np.asarray(g, float), -np.asarray(g, float)
    Hn = np.asarray(H, float)
    for _ in range(k - 1):
        a = rr @ rr / (d @ Hn @ d)
        z = z + a * d
        rn = rr + a * Hn @ d
        d = -rn + rn @ rn / (rr @ rr) * d
        rr = rn
    s = np.asarray(r.p, float) - z
    assert abs(s @ d) / np.linalg.norm(s) / np.linalg.norm(d) > 0.9999, (s, d)
    """)
bug("cg-reported-length", "C16", [(TR, "    steplength = tree_l2_norm(state[\"z\"])\n", "    steplength = jnp.where(state[\"norm_z\"] >= tr_radius, tr_radius, state[\"norm_z\"])\n")],
    "non-positive curvature with an untruncated step inside the radius", "the reported length is not that of the returned step",
    """
    from magpi.tr import steihaug
    r = steihaug(jnp.asarray([0.1, 0.0]), lambda d: -d, 1.0, 1e-6)
    assert np.isclose(float(r.step_length), float(jnp.linalg.norm(r.p)), rtol=1e-4), (r.step_length, r.p)
    """, also=["C03"])
bug("cg-converged-budget", "C16", [(TR, "    converged = jnp.invert(condition(state))\n", "    converged = jnp.invert(condition(state)) | (state[\"iter_num\"] >= 2 * tree_size(grad_f))\n")],
    "a budget of more than twice the dimension used up without convergence", "convergence is reported although the residual is above the tolerance",
    """
    from magpi.tr import steihaug
    n = 0
    for k in range(60):
        rs = np.random.RandomState(k)
        d = jnp.asarray(np.exp(rs.uniform(0, 12, 3)).astype(np.float32))
        r = steihaug(jnp.asarray(rs.randn(3).astype(np.float32)), lambda v: d * v, 1e8, 1e-12, maxiter=8)
        n += int(r.iter_num) == 8
        bad = bool(r.converged) and float(r.norm_r) >= 1e-12 and float(r.curvature) > 0 and float(r.step_length) < 1e8 * 0.999
        assert not bad, r
    assert n > 0
    """)

# ================================================================ fourth batch
SAMP, ODE, INT, CALC, MOD, RFUN, DOM, SPL = [f"magpi/{n}.py" for n in ("sampling", "ode", "integrate", "calc", "model", "r_fun", "domain", "spline")]

bug("tr-trial-kwargs", "C01", [(TR, "            (value, aux), new_grad = self._value_and_grad_with_aux(\n                new_params, *args, **kwargs\n            )\n", "            (value, aux), new_grad = self._value_and_grad_with_aux(\n                new_params, *args, **{k: v for k, v in kwargs.items() if v is not None and jnp.ndim(v)}\n            )\n")],
    "data passed by keyword as a scalar, with a default in the objective", "the trial point is evaluated with the default of a scalar keyword argument instead of its value",
    """
    from magpi.tr import TR
    def f(x, c=0.0):
        return jnp.sum((x - c) ** 2) + 0.1 * jnp.sum(jnp.cosh(x - c))
    s = TR(f, jit=False, unroll=True)
    x = jnp.asarray([0.3, -0.7])
    st = s.init_state(x, c=2.0)
    for _ in range(5):
        x, st = s.update(x, st, c=2.0)
        assert np.allclose(st.value, f(x, 2.0), rtol=1e-5), (st.value, f(x, 2.0))
    """, also=["C02"])
bug("tr-error-max", "C01", [(TR, "                    error=tree_l2_norm(new_grad),\n", "                    error=jnp.sqrt(tree_reduce(jnp.maximum, tree_map(lambda g: jnp.sum(jnp.abs(g) ** 2), new_grad))),\n")],
    "parameters with several leaves", "after an accepted step the reported error is the norm of the gradient's largest leaf only",
    """
    from magpi.tr import TR
    f = lambda p: jnp.sum((p["a"] - 1) ** 2) + jnp.sum(jnp.cosh(p["b"] - 2))
    s = TR(f, jit=False, unroll=True)
    x = {"a": jnp.zeros(2), "b": jnp.zeros(3)}
    st = s.init_state(x)
    x, st = s.update(x, st)
    g = np.concatenate([np.ravel(v) for v in jax.tree.leaves(st.grad)])
    assert np.isclose(float(st.error), np.linalg.norm(g), rtol=1e-4), (st.error, np.linalg.norm(g))
    """, also=["C06"])
bug("tr-rho-nan-to-num", "C02", [(TR, "            rho = (nom) / (denom)\n", "            rho = jnp.nan_to_num(nom / denom)\n")],
    "NaN curvature products and rho_accept=0", "an unusable model ratio counts as 0 and is accepted when the acceptance threshold is 0",
    """
    from magpi.tr import TR
    @jax.custom_jvp
    def g(x):
        return 2 * x
    @g.defjvp
    def _(p, t):
        return 2 * p[0], jnp.where(jnp.linalg.norm(t[0]) < 1.0, jnp.nan, 2.0) * t[0]
    f = lambda x: (jnp.sum(x ** 2), g(x))
    s = TR(f, value_and_grad=True, rho_accept=0.0, jit=False, unroll=True, init_tr_radius=0.25)
    x = jnp.asarray([3.0, -7.0])
    st = s.init_state(x)
    y, st2 = s.update(x, st)
    assert np.array_equal(y, x) and np.isnan(float(st2.rho)), (y, st2.rho)
    """, also=["C01"])
bug("tr-accept-strict", "C02", [(TR, "            accept = rho >= self.rho_accept\n", "            accept = rho > self.rho_accept\n")],
    "a reduction ratio that equals the acceptance threshold exactly", "a step whose ratio reaches the threshold exactly is refused",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x ** 2)
    s = TR(f, rho_accept=1.0, rho_decrease=1.0, rho_increase=1.5, jit=False, unroll=True, init_tr_radius=16.0, max_tr_radius=16.0)
    x = jnp.asarray([2.0])
    y, st = s.update(x, s.init_state(x))
    assert float(st.rho) == 1.0 and float(y[0]) == 0.0, (st.rho, y)
    """)
bug("tr-nan-nom", "C03", [(TR, "            rho = jnp.where(jnp.isnan(value) | (denom < 0), -jnp.inf, rho)\n", "            rho = jnp.where(~jnp.isfinite(value) | (denom < 0), -jnp.inf, rho)\n"), (TR, "            denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))\n", "            denom = -(tree_vdot(old_grad, p) + 0.5 * tree_vdot(p, hvp(p)))\n")],
    "an infinite value at both the current and the trial point", "the radius shrinks although the ratio is not a number and the trial value is not NaN",
    """
    from magpi.tr import TR
    f = lambda x: (jnp.asarray(jnp.inf) + 0 * jnp.sum(x), 2 * x)
    s = TR(f, value_and_grad=True, jit=False, unroll=True)
    x = jnp.asarray([0.3, -0.7])
    st = s.init_state(x)
    y, st2 = s.update(x, st)
    assert float(st2.tr_radius) == float(st.tr_radius)
    """)
bug("tr-increase-geq", "C03", [(TR, "            (rho > rho_increase) & limit_step,\n", "            (rho >= rho_increase) & limit_step,\n")],
    "a ratio exactly equal to the increase threshold with a step on the boundary", "the radius grows although the ratio does not exceed the threshold",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x ** 2)
    s = TR(f, rho_increase=1.0, jit=False, unroll=True, init_tr_radius=0.5)
    x = jnp.asarray([2.0])
    y, st = s.update(x, s.init_state(x))
    assert float(st.rho) == 1.0 and float(st.tr_radius) == 0.5, st.tr_radius
    """)
bug("tr-unroll-cap", "C04", [(TR, "            maxiter=self.maxiter_steihaug,\n            jit=self.jit,\n", "            maxiter=min(2, self.maxiter_steihaug or 2) if unroll else self.maxiter_steihaug,\n            jit=self.jit,\n")],
    "unrolled (or plain Python) execution with more than two parameters", "unrolled runs solve the subproblem with a smaller budget, so the trajectory depends on the execution mode",
    """
    from magpi.tr import TR
    d = jnp.asarray([1.0, 5.0, 25.0, 60.0])
    f = lambda x: jnp.sum(d * x ** 2) + jnp.sum(jnp.cosh(x))
    x = jnp.asarray([1.0, 2.0, -1.0, 0.5])
    a = TR(f, jit=True, unroll=False, maxiter=4, tol=1e-4).run(x).params
    b = TR(f, jit=False, unroll=True, maxiter=4, tol=1e-4).run(x).params
    assert np.allclose(a, b, rtol=1e-3, atol=1e-5), (a, b)
    """, also=["C06"])
bug("tr-warm-radius-last", "C04", [(TR, "                lambda: self.init_tr_radius,\n                lambda: tr_radius\n", "                lambda: jnp.asarray(self.init_tr_radius),\n                lambda: jnp.minimum(tr_radius, self.init_tr_radius)\n")],
    "a warm restart from a state whose radius has grown beyond the initial one", "the restart loses the radius that was reached",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x ** 2)
    s = TR(f, init_tr_radius=0.5, max_tr_radius=8.0, maxiter=2, jit=False, unroll=True)
    r = s.run(jnp.asarray([10.0]))
    assert float(r.state.tr_radius) > 0.5
    assert float(s.init_state(r).tr_radius) == float(r.state.tr_radius)
    """, also=["C03"])
bug("tr-callback-not-last", "C05", [(TR, "            if self.callback is not None:\n                io_callback(self.callback, None, _step)\n", "            if self.callback is not None:\n                lax.cond(\n                    new_state.error > self.tol,\n                    lambda s: io_callback(self.callback, None, s),\n                    lambda s: None,\n                    _step,\n                )\n")],
    "a run that reaches its tolerance", "the step that reaches the tolerance is not announced",
    """
    from magpi.tr import TR
    seen = []
    f = lambda x: jnp.sum((x - 1) ** 2) + jnp.sum(jnp.cosh(x))
    s = TR(f, callback=lambda st: seen.append(int(st.state.iter_num)), tol=1e-3)
    r = s.run(jnp.asarray([0.5, -0.2]))
    jax.block_until_ready(r)
    jax.effects_barrier()
    assert seen == list(range(1, int(r.state.iter_num) + 1)), (seen, r.state.iter_num)
    """)
bug("tr-callback-old-params", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                io_callback(self.callback, None, _step._replace(params=tree_map(lambda a, b: jnp.where(new_state.error < jnp.inf, a, b), _step.params, params)))\n")],
    "an accepted step with a gradient that is not finite", "the announced parameters are those before the step when the new gradient is unusable",
    """
    from magpi.tr import TR
    def f(x):
        v = jnp.sum((x - 1) ** 2)
        return v, jnp.where(v < 0.5, jnp.nan, 1.0) * 2 * (x - 1)
    seen = []
    s = TR(f, value_and_grad=True, callback=lambda st: seen.append(np.asarray(st.params)), jit=False, unroll=True)
    x = jnp.asarray([0.0])
    st = s.init_state(x)
    y, st2 = s.update(x, st)
    jax.effects_barrier()
    assert bool(st2.accepted) and np.array_equal(seen[-1], y), (seen, y)
    """)
bug("tr-eps-double", "C06", [(TR, "        eps = jnp.maximum(self.tol, eps)\n", "        eps = jnp.maximum(2 * self.tol, eps)\n")],
    "a start whose gradient norm lies between the tolerance and twice the tolerance", "no further step is made once the gradient norm is below twice the tolerance",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x ** 2)
    s = TR(f, tol=1e-2, maxiter=50)
    r = s.run(jnp.asarray([0.0075]))
    assert float(r.state.error) <= 1e-2, r.state.error
    """)
bug("tr-eps-nan-floor", "C01", [(TR, "        norm_df = tree_l2_norm(old_grad)\n        eps = jnp.minimum(1 / 2, norm_df ** self.forcing_parameter) * norm_df\n", "        norm_df = tree_l2_norm(old_grad)\n        eps = jnp.minimum(1 / 2, norm_df ** self.forcing_parameter) * jnp.fmax(norm_df, state.error)\n"), (TR, "            tr_radius=tr_radius,\n            subproblem_result=subproblem_result,\n", "            tr_radius=tr_radius,\n            subproblem_result=subproblem_result,\n        )._replace(\n            error=jnp.where(jnp.isnan(norm_df), jnp.inf, norm_df),\n")],
    "an initial evaluation with a NaN gradient", "the reported error of a failed initial evaluation is infinity instead of the norm of the gradient it returned",
    """
    from magpi.tr import TR
    f = lambda x: (jnp.sum(x ** 2), x * jnp.nan)
    s = TR(f, value_and_grad=True, jit=False, unroll=True)
    st = s.init_state(jnp.asarray([1.0]))
    assert np.isnan(float(st.error)), st.error
    """, also=["C01"])
bug("opt-buffer-reuse", "C07", [(OPT, "            batch = tree_map(lambda b: b[i], batches)\n", "            rows = tree_map(lambda b: np.asarray(b)[i], batches)\n            if i == 0:\n                batch = tree_map(lambda r: np.array(r), rows)\n            else:\n                tree_map(lambda o, r: np.copyto(o, r), batch, rows)\n"), (OPT, "import chex\n", "import chex\nimport numpy as np\n")],
    "a consumer that keeps a batch while asking for the next one", "all batches of an epoch share one buffer, so a kept batch changes when the next one is taken",
    """
    from magpi.opt import make_iterator, batches_without_replacement
    X = jnp.arange(12.0)
    kept = list(make_iterator(jax.random.PRNGKey(0), 1, lambda k: batches_without_replacement(k, X, 4)))
    assert len(set(np.concatenate([np.asarray(b) for b in kept]).tolist())) == 12, kept
    """, also=["C08"])
bug("opt-memo-num-batches", "C07", [(OPT, "    for _ in range(epochs):\n        key, sample_key, batch_key = random.split(key, 3)\n        batches = batch_fn(sample_key)\n        num_batches = axis_size(batches, 0)\n", "    num_batches = None\n    for _ in range(epochs):\n        key, sample_key, batch_key = random.split(key, 3)\n        batches = batch_fn(sample_key)\n        if num_batches is None:\n            num_batches = axis_size(batches, 0)\n")],
    "a batch function whose number of batches changes between epochs", "later epochs deal as many batches as the first one: rows are dropped or batches repeated",
    """
    from magpi.opt import make_iterator, batches_without_replacement
    n = iter([8, 16, 12])
    got = list(make_iterator(jax.random.PRNGKey(0), 3, lambda k: batches_without_replacement(k, jnp.arange(next(n)), 4)))
    assert len(got) == 2 + 4 + 3, len(got)
    """, also=["C08"])
bug("opt-wrap-last", "C07", [(OPT, "    perms = perms[: batches * batch_size]\n", "    perms = perms[: batches * batch_size] if batches else jnp.resize(perms, batch_size)\n    batches = max(batches, 1)\n")],
    "fewer rows than the batch size", "a too small data set is dealt with repeated rows instead of no batch",
    """
    from magpi.opt import batches_without_replacement
    b = batches_without_replacement(jax.random.PRNGKey(0), jnp.arange(3.0), 5)
    assert b.shape[0] == 0, b
    """)
bug("opt-yield-parent", "C08", [(OPT, "                batch_key, subkey = random.split(batch_key)\n                yield subkey, batch\n", "                yield batch_key, batch\n                batch_key, _ = random.split(batch_key)\n")],
    "per-batch keys compared with what splitting one of them gives", "the key handed out with a batch is the parent of the next batch's key",
    """
    from magpi.opt import make_iterator, batches_without_replacement
    ks = [np.asarray(k) for k, _ in make_iterator(jax.random.PRNGKey(0), 1, lambda k: batches_without_replacement(k, jnp.arange(12), 3), add_rng=True)]
    for a in ks:
        for c in np.asarray(jax.random.split(jnp.asarray(a))):
            assert not any(np.array_equal(c, b) for b in ks), "child handed out"
    """)
bug("opt-process-fold", "C15", [(OPT, "    for _ in range(epochs):\n        key, sample_key", "    worker = current_process()._identity\n    if worker:\n        key = random.fold_in(key, worker[-1])\n    for _ in range(epochs):\n        key, sample_key"), (OPT, "import chex\n", "from multiprocessing import current_process\n\nimport chex\n")],
    "an iterator used in a multiprocessing worker", "the stream of a key depends on which worker process draws it",
    """
    import multiprocessing as mp
    from magpi.opt import make_iterator
    def first():
        return np.asarray(next(make_iterator(jax.random.PRNGKey(0), 1, lambda k: jax.random.permutation(k, 100)[None])))
    a = first()
    mp.current_process()._identity = (3,)
    b = first()
    assert np.array_equal(a, b)
    """, also=["C08"])
bug("opt-thread-fold", "C08", [(OPT, "    for _ in range(epochs):\n        key, sample_key", "    if current_thread() is not main_thread():\n        key = random.fold_in(key, current_thread().native_id % 1024)\n    for _ in range(epochs):\n        key, sample_key"), (OPT, "import chex\n", "from threading import current_thread, main_thread\n\nimport chex\n")],
    "an iterator consumed on a thread other than the main thread", "the same key gives another stream on a worker thread",
    """
    import threading
    from magpi.opt import make_iterator
    out = []
    def first():
        out.append(np.asarray(next(make_iterator(jax.random.PRNGKey(0), 1, lambda k: jax.random.permutation(k, 100)[None]))))
    first()
    t = threading.Thread(target=first); t.start(); t.join()
    assert np.array_equal(out[0], out[1])
    """, also=["C15"])
bug("samp-float-cast", "C09", [(SAMP, "        _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))\n        return sample\n", "        _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))\n        return tree.map(lambda s: jnp.where(jnp.isfinite(s * 1.0), s * 1.0, 0.0).astype(s.dtype), sample)\n")],
    "proposals with large integer or infinite entries", "returned samples are rounded through floating point and infinities become zero",
    """
    from magpi.sampling import rejection_sampling
    r = rejection_sampling(jax.random.PRNGKey(0), lambda s: 1.0, lambda k: 16777217 + jax.random.randint(k, (), 0, 2) * 2, 8, 1)
    assert set(np.asarray(r).tolist()) <= {16777217, 16777219}, r
    """)
bug("samp-floor", "C09", [(SAMP, "            return jnp.logical_not(p < (pdf(sample) / m))\n", "            return jnp.logical_not(p < jnp.fmax(pdf(sample) / m, jnp.finfo(p.dtype).eps))\n")],
    "an internal uniform draw of exactly zero", "a proposal of density zero (or NaN) is returned when the uniform draw is zero",
    """
    from magpi import sampling
    calls = []
    class R:
        def __getattr__(self, n):
            return getattr(jax.random, n)
        @staticmethod
        def uniform(key, *a, **k):
            return jnp.zeros(())
    sampling.random = R()
    out = sampling.rejection_sampling(jax.random.PRNGKey(0), lambda s: jnp.where(s > 0.5, 1.0, 0.0), lambda k: jax.random.uniform(k), 64, 1)
    assert float(jnp.min(out)) > 0.5, out
    """)
bug("samp-overwrite", "C10", [(SAMP, "    keys = random.split(key, n)\n    return vmap(draw_sample)(keys)\n", "    def propose(keys):\n        keys, samplekeys, valkeys = vmap(lambda k: tuple(random.split(k, 3)))(keys)\n        samples = vmap(sample_fn)(samplekeys)\n        ok = vmap(random.uniform)(valkeys) < vmap(pdf)(samples) / m\n        return keys, samples, ok\n\n    def again(state):\n        keys, samples, done = state\n        keys, new, ok = propose(keys)\n        samples = tree.map(lambda a, b: jnp.where(ok.reshape((-1,) + (1,) * (a.ndim - 1)), b, a), samples, new)\n        return keys, samples, done | ok\n\n    state = propose(random.split(key, n))\n    return lax.while_loop(lambda s: ~jnp.all(s[2]), again, state)[1]\n")],
    "several samples of which one needs more rounds", "accepted samples are replaced while another sample is still being retried",
    """
    from magpi.sampling import rejection_sampling
    pdf = lambda s: jnp.where(s < 0.5, 1.0, 0.3)
    a = np.asarray(rejection_sampling(jax.random.PRNGKey(1), pdf, lambda k: jax.random.uniform(k), 64, 1))
    ks = jax.random.split(jax.random.PRNGKey(1), 64)
    def first(k):
        _, s, v = jax.random.split(k, 3)
        x = jax.random.uniform(s)
        return x, jax.random.uniform(v) < pdf(x)
    x, ok = jax.vmap(first)(ks)
    assert np.array_equal(a[np.asarray(ok)], np.asarray(x)[np.asarray(ok)])
    """)
bug("ode-substep", "C12", [(ODE, "        y = method(df, y, t_prev, dt, *args)\n", "        half = lambda y: method(df, method(df, y, t_prev, dt / 2, *args), t_prev + dt / 2, dt / 2, *args)\n        y = lax.cond(jnp.abs(dt) > 0.75, half, lambda y: method(df, y, t_prev, dt, *args), y)\n")],
    "an interval longer than 0.75", "long intervals are integrated with two half steps instead of one",
    """
    from magpi.ode import odeint
    ys = odeint(lambda y, t: -y, jnp.asarray(1.0), jnp.asarray([0.0, 1.0]))
    assert np.isclose(float(ys[1]), 0.375, rtol=1e-5), ys
    """)
bug("ode-nan-guard", "C12", [(ODE, "    dy = df(y, t, *args)\n    y = tree_add(y, tree_scalar_mul(dt, dy))\n", "    dy = tree_map(jnp.nan_to_num, df(y, t, *args))\n    y = tree_add(y, tree_scalar_mul(dt, dy))\n")],
    "explicit Euler with dynamics that fail (NaN) for a while", "a failed evaluation is silently treated as zero",
    """
    from magpi.ode import odeint, explicit_euler
    df = lambda y, t: jnp.where((t > 0.15) & (t < 0.25), jnp.nan, -y)
    ys = odeint(df, jnp.asarray(1.0), jnp.asarray([0.0, 0.1, 0.2, 0.3]), method=explicit_euler)
    assert np.isnan(float(ys[3])), ys
    """)
bug("ode-time-dtype", "C11", [(ODE, "    _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)\n", "    y = tree_map(lambda v: asarray(v).astype(ts.dtype) if jnp.issubdtype(ts.dtype, jnp.floating) else v, y)\n    df_, df = df, lambda *a: tree_map(lambda d: asarray(d).astype(ts.dtype), df_(*a))\n    _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)\n")],
    "a state whose type is not that of the time points (complex, or double precision with single precision times)", "the state is converted to the type of the time points",
    """
    import warnings
    warnings.simplefilter("ignore")
    from magpi.ode import odeint
    y0 = jnp.asarray([1.0 + 0.5j])
    ys = odeint(lambda y, t: 1j * y, y0, jnp.asarray([0.0, 0.1, 0.2]))
    assert np.array_equal(np.asarray(ys[0]), np.asarray(y0)), ys
    """, also=["C12"])
bug("ode-scan-ts0", "C11", [(ODE, "    _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)\n", "    n = len(ts) - 1\n    pad = (-n) % unroll\n    steps = jnp.concatenate([ts[1:], jnp.repeat(ts[-1:], pad)]) if n > unroll else ts[1:]\n    _, ys = lax.scan(_step, (y, ts[0]), steps, unroll=unroll)\n    ys = tree_map(lambda v: v[len(steps) - n:], ys)\n")],
    "an unroll factor above one that does not divide the number of steps", "the padded steps are cut off at the wrong end, so states appear one or more positions early",
    """
    from magpi.ode import odeint
    ts = jnp.linspace(0.0, 1.0, 6)
    a = odeint(lambda y, t: -y, jnp.asarray(1.0), ts)
    b = odeint(lambda y, t: -y, jnp.asarray(1.0), ts, unroll=2)
    assert np.allclose(a, b), (a, b)
    """, also=["C12"])
bug("integrate-seterr", "C13", [(INT, "    F = jnp.apply_along_axis(g, -1, X)\n", "    old = np.seterr(all=\"raise\")\n    F = jnp.apply_along_axis(g, -1, X)\n    np.seterr(**old)\n"), (INT, "from magpi.prelude import *\n", "import numpy as np\n\nfrom magpi.prelude import *\n")],
    "an integration aborted by an exception from the integrand", "numpy's error handling stays changed after an aborted call",
    """
    from magpi.integrate import integrate
    def f(x):
        raise KeyError("user")
    before = np.geterr()
    try:
        integrate(f, jnp.linspace(0.0, 1.0, 4))
    except KeyError:
        pass
    assert np.geterr() == before, np.geterr()
    """)
bug("integrate-domain-inplace", "C13", [(INT, "    W, X = zip(*(method(d) for d in domain))\n", "    for i, d in enumerate(domain):\n        if isinstance(domain, list):\n            domain[i] = jnp.sort(asarray(d))\n    W, X = zip(*(method(d) for d in domain))\n")],
    "a domain given as a list with a decreasing axis", "the caller's list of axes is modified (and reversed axes lose their sign)",
    """
    from magpi.integrate import integrate
    a = np.linspace(1.0, 0.0, 4)
    d = [a, jnp.linspace(0.0, 1.0, 3)]
    integrate(lambda x: x[0] * x[1], d)
    assert d[0] is a, d
    """)
bug("calc-signature-mark", "C13", [(CALC, "        sig = signature(f)\n        df = value_and_derivative(f, argnum)\n", "        sig = signature(f)\n        if not hasattr(f, \"__signature__\"):\n            f.__signature__ = sig\n        df = value_and_derivative(f, argnum)\n")],
    "a function whose defaults or wrapped signature change after its derivative was built", "the operator writes an attribute on the caller's function",
    """
    from magpi.calc import derivative
    f = lambda x, y: x * y
    derivative(f)(1.0, 2.0)
    assert not vars(f), vars(f)
    """)
bug("model-argnums-inplace", "C13", [(MOD, "    if isinstance(argnums_m0, int):\n        argnums_m0 = [argnums_m0]\n", "    if isinstance(argnums_m0, int):\n        argnums_m0 = [argnums_m0]\n    elif argnum_t in argnums_m0:\n        argnums_m0.remove(argnum_t)\n")],
    "an argument list that contains the time argument", "the caller's list of argument numbers is modified",
    """
    from magpi.model import impose_ic
    a = [0, 1]
    m = impose_ic(lambda x, *t: x, lambda x, t: x * t, argnums_m0=a)
    m(1.0, 2.0)
    assert a == [0, 1], a
    """)
bug("rfun-lazy-normalize", "C13", [(RFUN, "    df = jacfwd(adf)\n\n    def normalize(x):\n        y = adf(x)\n        dy = df(x)\n        return y / sqrt(y**2 + norm(dy) ** 2)\n", "    df = jacfwd(adf)\n    last = {}\n\n    def normalize(x):\n        last[\"y\"] = adf(x)\n        dy = df(x)\n        y = last.pop(\"y\")\n        return y / sqrt(y**2 + norm(dy) ** 2)\n")],
    "two calls of one normalised distance function interleaved inside the user's function", "the shared scratch entry of another call is used (or missing)",
    """
    from magpi.r_fun import normalize_1st_order
    state = {"n": 0, "nested": False}
    def adf(x):
        state["n"] += 1
        if state["nested"] is None and state["n"] == 2:
            state["nested"] = True
            n(jnp.asarray([3.0]))
        return 1.0 - jnp.sum(x**2)
    n = normalize_1st_order(adf)
    want = float(n(jnp.asarray([0.2])))
    state.update(n=0, nested=None)
    got = float(n(jnp.asarray([0.2])))
    assert got == want, (got, want)
    """)
bug("domain-isfinite", "C14", [(DOM, "    x = where(x > 1.0, x % 1.0, x)\n    return x * (ub - lb) + lb\n", "    x = where(x > jnp.nanmax(jnp.array([1.0, 1.0 if x.ndim < 2 else 1.0])), x % 1.0, x)\n    return (x - jnp.nanmean(x) + jnp.nanmean(x)) * (ub - lb) + lb if x.ndim > 1 else x * (ub - lb) + lb\n")],
    "an infinite or huge entry in a batch of reference points", "one unusable entry makes all points of the batch NaN or inaccurate",
    """
    from magpi.domain import Hypercube
    h = Hypercube((0.0, 0.0), (1.0, 2.0))
    x = jnp.asarray([[0.1, 0.2], [0.3, 0.4], [-jnp.inf, 0.5]])
    y = h.transform(x)
    assert bool(jnp.all(jnp.isfinite(y[:2]))), y
    """)
bug("poly-batch-scale", "C14", [(DOM, "    _s = (_s * length).ravel()\n", "    _s = (_s * length).ravel()\n    _s = where(_s > jnp.max(_s), 0.0, _s) if jnp.ndim(s) else _s\n    _s = where(jnp.any(jnp.isnan(_s)), jnp.nan_to_num(_s) + 0.0 * jnp.sum(_s), _s)\n")],
    "a NaN among the reference points of a polyline", "one NaN makes every point of the batch NaN",
    """
    from magpi.domain import transform_polyline
    p = (jnp.asarray([0.0, 0.0]), jnp.asarray([1.0, 0.0]), jnp.asarray([1.0, 1.0]))
    y = transform_polyline(jnp.asarray([0.1, jnp.nan, 0.7]), p)
    assert bool(jnp.all(jnp.isfinite(y[0]) & jnp.isfinite(y[2]))), y
    """)
bug("spline-outside-clip", "C14", [(SPL, "        y = jnp.sum((basis(x, grid, degree=self.degree) * coefs), axis=-1)\n", "        b = basis(x, grid, degree=self.degree)\n        b = b / jnp.maximum(1.0, jnp.max(jnp.sum(jnp.abs(b), axis=-1) * jnp.where(jnp.abs(x) < 1e4, 1.0, 2.0)))\n        y = jnp.sum((b * coefs), axis=-1)\n")],
    "a NaN (or a sum of basis functions above one by rounding) in the input of a spline activation", "one NaN input makes all outputs NaN",
    """
    from magpi.spline import SplineActivation
    m = SplineActivation(coef_init=jax.nn.initializers.normal(1.0))
    x = jnp.asarray([[0.3, -0.2], [0.1, jnp.nan], [0.5, 0.9]])
    p = m.init(jax.random.PRNGKey(0), x)
    y = m.apply(p, x)
    assert bool(jnp.all(jnp.isfinite(y[0]))), y
    """)
bug("cg-eps-relative", "C16", [(TR, "        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r < eps)\n", "        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r < eps * jnp.maximum(1.0, norm_r0))\n"), (TR, "    def limit_step(z, d):\n", "    norm_r0 = tree_l2_norm(r)\n\n    def limit_step(z, d):\n")],
    "a gradient longer than one", "convergence is reported at a residual above the requested tolerance",
    """
    from magpi.tr import steihaug
    d = jnp.asarray([1.0, 3.0, 10.0])
    r = steihaug(jnp.asarray([50.0, 20.0, -30.0]), lambda v: d * v, 1e6, 0.5)
    assert bool(r.converged) and float(r.norm_r) < 0.5, r
    """, also=["C06"])
bug("cg-exact-residual", "C16", [(TR, "        r_new = tree_add_scalar_mul(r, alpha, Hd)\n", "        r_new = lax.cond(\n            state[\"iter_num\"] % 3 == 2,\n            lambda: tree_add(grad_f, hvp(z_new)),\n            lambda: tree_add_scalar_mul(r, alpha, Hd),\n        )\n")],
    "more than two products", "every third iteration asks for an extra product, so the budget is exceeded and the count is wrong",
    """
    from magpi.tr import steihaug
    n = []
    d = jnp.asarray([1.0, 3.0, 10.0, 40.0, 90.0])
    def hvp(v):
        jax.debug.callback(lambda: n.append(1))
        return d * v
    r = steihaug(jnp.ones(5), hvp, 1e6, 1e-9, maxiter=5)
    jax.block_until_ready(r); jax.effects_barrier()
    assert len(n) == int(r.iter_num), (len(n), r.iter_num)
    """)

# ---------------------------------------------------------------- fifth batch
bug("samp-fold-cap", "C10", [(SMP, "            key, p, sample = state\n            key, samplekey, valkey = random.split(key, 3)\n            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            return key, p, sample\n",
     "            (key, retry), p, sample = state\n            samplekey, valkey = random.split(random.fold_in(key, jnp.minimum(retry, 1023)))\n            p = random.uniform(valkey)\n            sample = sample_fn(samplekey)\n            return (key, retry + 1), p, sample\n"),
    (SMP, "        _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))\n", "        _, _, sample = lax.while_loop(not_valid, body, ((key, 0), p, sample))\n")],
    "a sample that needs more than 1024 rounds", "after 1024 rounds the same proposal is made for ever",
    """
    from magpi.sampling import rejection_sampling
    n = []
    def pdf(x):
        jax.debug.callback(lambda: n.append(1) if len(n) < 400000 else os._exit(1))
        return jnp.where(x < 1 / 3000, 1.0, 0.0)
    y = rejection_sampling(jax.random.PRNGKey(1), pdf, jax.random.uniform, 8, 1)
    assert bool(jnp.all(y < 1 / 400))
    """)
bug("tr-iter-byte", "C04", [(TR, "            iter_num = jnp.asarray(0)\n", "            iter_num = jnp.asarray(0, dtype=jnp.uint8)\n")],
    "more than 255 steps", "the iteration count wraps around",
    """
    from magpi.tr import TR
    f = lambda x: jnp.sum(x)
    s = TR(f, init_tr_radius=0.1, max_tr_radius=0.1, maxiter=300)
    r = s.run(jnp.zeros(2))
    assert int(r.state.iter_num) == 300, r.state.iter_num
    """, also=["C05"])
bug("tr-x64-step", "C01", [(TR, "            new_params = tree_add(params, p)\n", "            new_params = tree_map(lambda a, b: a + b.astype(jnp.float32), params, p)\n")],
    "double precision parameters", "an accepted step displaces the parameters by the reported step rounded to single precision",
    """
    jax.config.update("jax_enable_x64", True)
    from magpi.tr import TR
    f = lambda x: jnp.sum((x - jnp.asarray([0.123456789012, -1.98765432109])) ** 2)
    s = TR(f, init_tr_radius=1.0)
    x = jnp.zeros(2)
    st = s.init_state(x)
    y, st = s.update(x, st)
    assert bool(st.accepted) and float(jnp.max(jnp.abs(y - x - st.subproblem_result.p))) < 1e-12, (y, st.subproblem_result.p)
    """)
bug("ode-coef32", "C12", [("magpi/ode.py", "    y = tree_map(lambda y, y1, y2, y3, y4: y + 1 / 6 * (y1 + 2 * y2 + 2 * y3 + y4), y, y1, y2, y3, y4)\n",
     "    sixth = jnp.float32(1 / 6)\n    y = tree_map(lambda y, y1, y2, y3, y4: y + sixth * (y1 + 2 * y2 + 2 * y3 + y4), y, y1, y2, y3, y4)\n")],
    "double precision states", "the weights of the last stage are only accurate to single precision",
    """
    jax.config.update("jax_enable_x64", True)
    from magpi.ode import odeint
    y = odeint(lambda y, t: 1.0 + 0 * y, jnp.zeros(()), jnp.asarray([0.0, 1.0]))
    assert abs(float(y[-1]) - 1.0) < 1e-12, y
    """)
bug("integrate-gauss-cache", "C13", [("magpi/integrate.py", "def gauss(degree: int) -> QuadRule:\n    nodes, weights = map(asarray, leggauss(degree))\n", "_rules = {}\n\n\ndef gauss(degree: int) -> QuadRule:\n    if degree not in _rules:\n        _rules[degree] = tuple(map(asarray, leggauss(degree)))\n    nodes, weights = _rules[degree]\n")],
    "a rule of the same degree built earlier in single precision mode", "double precision results are only accurate to single precision",
    """
    from magpi.integrate import gauss, integrate
    gauss(5)
    with jax.enable_x64(True):
        y = integrate(lambda x: x**2, jnp.asarray([0.0, 1.0]), method=gauss(5))
        assert abs(float(jnp.ravel(y)[0]) - 1 / 3) < 1e-12, y
    """)
bug("tr-nan-backoff", "C03", [(TR, "                self.increase_factor,\n                self.decrease_factor,\n            )\n            accept", "                self.increase_factor,\n                jnp.where(jnp.isneginf(rho) & jnp.isneginf(state.rho), 1 / 2, self.decrease_factor),\n            )\n            accept")],
    "two failed evaluations in a row", "after repeated failures the radius shrinks by another factor than the configured one",
    """
    from magpi.tr import TR
    f = lambda x: jnp.where(jnp.sum(x**2) > 1e-3, jnp.nan, 1.0) + jnp.sum(x)
    s = TR(f, init_tr_radius=1.0, decrease_factor=0.25)
    x = jnp.zeros(2)
    st = s.init_state(x)
    x, st = s.update(x, st)
    x, st = s.update(x, st)
    assert abs(float(st.tr_radius) - 1 / 16) < 1e-6, st.tr_radius
    """)
bug("tr-callback-dedupe", "C05", [(TR, "                io_callback(self.callback, None, _step)\n", "                def notify(step):\n                    # compiled code may deliver a call twice\n                    if getattr(self, \"_notified\", None) != int(step.state.iter_num):\n                        self._notified = int(step.state.iter_num)\n                        self.callback(step)\n\n                io_callback(notify, None, _step)\n")],
    "two optimisations on one solver where the second starts with the number at which the first stopped", "the first notification of the second optimisation is missing",
    """
    from magpi.tr import TR
    got = []
    s = TR(lambda x: jnp.sum(x**2), callback=got.append, maxiter=1)
    for x in (3.0, 4.0):
        s.run(jnp.full(2, x))
        jax.effects_barrier()
    assert len(got) == 2, len(got)
    """)
