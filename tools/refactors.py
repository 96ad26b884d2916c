"""Behaviour-preserving edits of /repo: every check has to stay quiet on them.

usage: refactors.py [id ...]     (each is applied to a scratch clone; the stable tests and the named checks are run)
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile

ROOT = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
TR, OPT, SMP, ODE, DOM, SPL, MOD, CALC, UT, INT, RF, SI, Q = ("magpi/" + f for f in ("tr.py", "opt.py", "sampling.py", "ode.py", "domain.py", "spline.py", "model.py", "calc.py", "utils.py", "integrate.py", "r_fun.py", "surface_integral.py", "quaternions.py"))
TRC = ["C01", "C02", "C03", "C04", "C05", "C06", "C13"]
R = []


def ref(i, checks, edits):
    R.append(dict(id=i, checks=checks, edits=edits))


ref("tr-where", TRC + ["C16"], [
    (TR, """    tr_radius = lax.cond(
        rho < rho_decrease,
        lambda: tr_radius * decrease_factor,
        lambda: lax.cond(
            (rho > rho_increase) & limit_step,
            lambda: jnp.minimum(tr_radius * increase_factor, max_tr_radius),
            lambda: tr_radius,
        ),
    )
    return jnp.maximum(tr_radius, min_tr_radius)""", """    shrunk = tr_radius * decrease_factor
    grown = jnp.minimum(tr_radius * increase_factor, max_tr_radius)
    kept = jnp.where((rho > rho_increase) & limit_step, grown, tr_radius)
    radius = jnp.where(rho < rho_decrease, shrunk, kept)
    return jnp.where(radius > min_tr_radius, radius, min_tr_radius)"""),
    (TR, """        z = lax.cond(
            (curvature <= 0) | (norm_z_new >= tr_radius),
            lambda: limit_step(z, d),
            lambda: z_new,
        )
""", """        leave = (curvature <= 0) | (norm_z_new >= tr_radius)
        z_bnd = limit_step(z, d)
        z = tree_map(lambda a, b: jnp.where(leave, a, b), z_bnd, z_new)
"""),
    (TR, """                lax.cond(
                    accept,
                    lambda: new_params,
                    lambda: params
                ),
""", """                tree_map(lambda a, b: jnp.where(accept, a, b), new_params, params),
"""),
])
ref("tr-helpers", TRC, [
    (TR, """            nom = old_value - value
            denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))
            rho = (nom) / (denom)
""", """            denom = _predicted_reduction(old_grad, p, hvp(p))
            rho = (old_value - value) / denom
"""),
    (TR, """def tree_size(pytree""", """def _predicted_reduction(g, p, Hp):
    g, p, Hp = ravel_pytree(g)[0], ravel_pytree(p)[0], ravel_pytree(Hp)[0]
    return -jnp.dot(g, p) - 0.5 * jnp.dot(p, Hp)


def tree_size(pytree"""),
    (TR, """            new_state = lax.cond(
                accept,
                lambda: TrState(
                    iter_num=state.iter_num + 1,
                    accepted=True,
                    value=value,
                    grad=new_grad,
                    error=tree_l2_norm(new_grad),
                    rho=rho,
                    tr_radius=tr_radius,
                    aux=aux,
                    subproblem_result=steihaug_result,
                ),
                lambda: TrState(
                    iter_num=state.iter_num + 1,
                    accepted=False,
                    value=old_value,
                    grad=old_grad,
                    error=tree_l2_norm(old_grad),
                    rho=rho,
                    tr_radius=tr_radius,
                    aux=old_aux,
                    subproblem_result=steihaug_result
                ),
            )
""", """            def choose(new, old):
                return lax.cond(accept, lambda: new, lambda: old)

            grad_f = choose(new_grad, old_grad)
            new_state = state._replace(
                iter_num=state.iter_num + 1,
                accepted=accept,
                value=choose(value, old_value),
                grad=grad_f,
                error=tree_l2_norm(grad_f),
                rho=rho,
                tr_radius=tr_radius,
                aux=choose(aux, old_aux),
                subproblem_result=steihaug_result,
            )
"""),
    (TR, """            if self.callback is not None:
                io_callback(self.callback, None, _step)

            return _step
""", """            self._notify(_step)
            return _step
"""),
    (TR, """    def optimality_fun(self""", """    def _notify(self, step):
        if self.callback is None:
            return
        io_callback(self.callback, None, step, ordered=False)

    def optimality_fun(self"""),
])
ref("tr-eval", TRC, [
    # the model at the current point by reverse-over-forward instead of a linearisation of value and gradient
    (TR, """            old_value, old_grad, hvp, old_aux = calc.value_grad_hvp(
                self._value_and_grad_with_aux, params, *args,
                value_and_grad=True, has_aux=True, **kwargs
            )
""", """            (old_value, old_aux), old_grad = self._value_and_grad_with_aux(params, *args, **kwargs)
            gradient = lambda q: self._value_and_grad_with_aux(q, *args, **kwargs)[1]
            hvp = lambda v: jax.jvp(gradient, (params,), (v,))[1]
"""),
    (TR, """        make_update = (state.tr_radius <= self.min_tr_radius)
        return lax.cond(make_update, no_update, update)""", """        collapsed = jnp.logical_not(state.tr_radius > self.min_tr_radius)
        return lax.cond(jnp.invert(collapsed), update, no_update)"""),
    (TR, """            tr_radius = state.tr_radius
            tr_radius = lax.cond(
                tr_radius <= self.min_tr_radius,
                lambda: self.init_tr_radius,
                lambda: tr_radius
            )
""", """            tr_radius = jnp.where(state.tr_radius <= self.min_tr_radius, self.init_tr_radius, state.tr_radius)
"""),
])
ref("tr-linearize", TRC, [
    (TR, """            old_value, old_grad, hvp, old_aux = calc.value_grad_hvp(
                self._value_and_grad_with_aux, params, *args,
                value_and_grad=True, has_aux=True, **kwargs
            )
""", """            def gradient(q):
                (v, a), g = self._value_and_grad_with_aux(q, *args, **kwargs)
                return g, (v, a)

            old_grad, hvp, (old_value, old_aux) = jax.linearize(gradient, params, has_aux=True)
"""),
])
ref("cg-carry", ["C16", "C01", "C02", "C03", "C06", "C13"], [
    (TR, """        z, d, r = state["z"], state["d"], state["r"]
        rTr = tree_vdot(r, r)
""", """        z, d, r, rTr = state["z"], state["d"], state["r"], state["rTr"]
"""),
    (TR, """        beta = tree_vdot(r_new, r_new) / rTr
""", """        rTr_new = tree_vdot(r_new, r_new)
        beta = rTr_new / rTr
"""),
    (TR, """        norm_r_new = tree_l2_norm(r_new)
""", """        norm_r_new = sqrt(rTr_new)
"""),
    (TR, """            r=r_new,
            norm_z=norm_z_new,
""", """            r=r_new,
            rTr=rTr_new,
            norm_z=norm_z_new,
"""),
    (TR, """        r=r,
        norm_z=0.0,
""", """        r=r,
        rTr=tree_vdot(r, r),
        norm_z=0.0,
"""),
    (TR, """    def condition(state):
        curvature, norm_z, norm_r = state["curvature"], state["norm_z"], state["norm_r"]
        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r < eps)
        return jnp.invert(cond)
""", """    def finished(state):
        at_boundary = state["norm_z"] >= tr_radius
        no_descent = state["curvature"] <= 0
        return no_descent | at_boundary | (state["norm_r"] < eps)

    def condition(state):
        return jnp.logical_not(finished(state))
"""),
])
ref("cg-flat", ["C16", "C01", "C02", "C03", "C05", "C06"], [
    # work on flat vectors
    (TR, """    z = tree_zeros_like(grad_f)
    r = grad_f
    d = tree_negative(r)
""", """    tree_dtype = utils.tree_single_dtype(grad_f)
    r, _unravel = ravel_pytree(grad_f)
    z = jnp.zeros_like(r)
    d = -r
    hvp_tree = hvp
    hvp = lambda v: ravel_pytree(hvp_tree(_unravel(v)))[0]
"""),
    (TR, """    dtype = utils.tree_single_dtype(grad_f)
    init_state""", """    dtype = tree_dtype
    init_state"""),
    (TR, """        p=state["z"],
        norm_r""", """        p=_unravel(state["z"]),
        norm_r"""),
])
ref("opt-rewrite", ["C07", "C08", "C13", "C15"], [
    (OPT, """    axis_size = tree_map(lambda p: p.shape[axis], tree)
    axis_size = tree_leaves(axis_size)
    s = axis_size[0]
    return all(_s == s for _s in axis_size)
""", """    sizes = {leaf.shape[axis] for leaf in tree_leaves(tree)}
    return len(sizes) == 1
"""),
    (OPT, """    perms = jax.random.permutation(key, N)
    perms = perms[: batches * batch_size]
    perms = perms.reshape((batches, batch_size))
    return tree_map(lambda x: x[perms], X)


def batches_with""", """    rows = jax.random.permutation(key, N)[: batches * batch_size]
    return tree_map(lambda x: x[rows].reshape((batches, batch_size) + x.shape[1:]), X)


def batches_with"""),
    (OPT, """    perms = vmap(choose_batch, (0, None))(keys, batch_size)
""", """    perms = vmap(lambda k: choose_batch(k, batch_size))(keys)
"""),
    (OPT, """        num_batches = axis_size(batches, 0)
        for i in range(num_batches):
            batch = tree_map(lambda b: b[i], batches)
            if add_rng:
                batch_key, subkey = random.split(batch_key)
                yield subkey, batch
            else:
                yield batch
""", """        yield from _deal(batch_key, batches, add_rng)


def _deal(batch_key, batches, add_rng):
    leaves, treedef = jax.tree_util.tree_flatten(batches)
    n = axis_size(batches, 0)
    i = 0
    while i < n:
        batch = jax.tree_util.tree_unflatten(treedef, [leaf[i] for leaf in leaves])
        i += 1
        if not add_rng:
            yield batch
            continue
        batch_key, subkey = random.split(batch_key)
        yield subkey, batch
"""),
])
ref("smp-rewrite", ["C09", "C10", "C13", "C15"], [
    (SMP, """    def draw_sample(key):
        key, samplekey, valkey = random.split(key, 3)
        sample = sample_fn(samplekey)
        p = random.uniform(valkey)

        def body(state):
            key, p, sample = state
            key, samplekey, valkey = random.split(key, 3)
            p = random.uniform(valkey)
            sample = sample_fn(samplekey)
            return key, p, sample

        def not_valid(state):
            _, p, sample = state
            # negated: a NaN density must not be accepted
            return jnp.logical_not(p < (pdf(sample) / m))

        _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
        return sample
""", """    def propose(key):
        key, samplekey, valkey = random.split(key, 3)
        sample = sample_fn(samplekey)
        threshold = random.uniform(valkey)
        accepted = threshold < pdf(sample) / m
        return key, accepted, sample

    def draw_sample(key):
        state = propose(key)
        state = lax.while_loop(lambda s: ~s[1], lambda s: propose(s[0]), state)
        return state[2]
"""),
])
ref("ode-rewrite", ["C11", "C12", "C13", "C14"], [
    (ODE, """    def _step(state, t):
        y, t_prev = state
        dt = t - t_prev
        y = method(df, y, t_prev, dt, *args)
        return (y, t), y

    _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
    return""", """    def _step(y, interval):
        start, dt = interval
        y = method(df, y, start, dt, *args)
        return y, y

    _, ys = lax.scan(_step, y, (ts[:-1], ts[1:] - ts[:-1]), unroll=unroll)
    return"""),
    (ODE, """    y1 = tree_scalar_mul(dt, df(y, t, *args))
    y2 = tree_scalar_mul(dt, df(tree_add(y, tree_scalar_mul(1 / 2, y1)), t + dt / 2, *args))
    y3 = tree_scalar_mul(dt, df(tree_add(y, tree_scalar_mul(1 / 2, y2)), t + dt / 2, *args))
    y4 = tree_scalar_mul(dt, df(tree_add(y, y3), t + dt, *args))
    y = tree_map(lambda y, y1, y2, y3, y4: y + 1 / 6 * (y1 + 2 * y2 + 2 * y3 + y4), y, y1, y2, y3, y4)
    return y
""", """    half = dt * 0.5
    mid = t + half
    k1 = df(y, t, *args)
    k2 = df(tree_add_scalar_mul(y, half, k1), mid, *args)
    k3 = df(tree_add_scalar_mul(y, half, k2), mid, *args)
    k4 = df(tree_add_scalar_mul(y, dt, k3), t + dt, *args)

    def combine(y, a, b, c, d):
        return y + dt * (a / 6 + b / 3 + c / 3 + d / 6)

    return tree_map(combine, y, k1, k2, k3, k4)
"""),
])
ref("ode-order", ["C11", "C12"], [
    (ODE, """    y2 = tree_scalar_mul(dt, df(tree_add(y, tree_scalar_mul(1 / 2, y1)), t + dt / 2, *args))
    y3 = tree_scalar_mul(dt, df(tree_add(y, tree_scalar_mul(1 / 2, y2)), t + dt / 2, *args))
""", """    tm = t + 1 / 2 * dt

    def stage(k):
        return tree_scalar_mul(dt, df(tree_map(lambda a, b: a + b / 2, y, k), tm, *args))

    y2 = stage(y1)
    y3 = stage(y2)
"""),
    (ODE, """    _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
    return tree_map(lambda a, b: concatenate([a[None], b]), y, ys)""", """    init = (y, ts[0])
    _, rest = lax.scan(_step, init, ts[1:], unroll=unroll)

    def prepend(first, others):
        return jnp.concatenate([jnp.expand_dims(first, 0), others], axis=0)

    return tree_map(prepend, y, rest)"""),
])
ref("model-rewrite", ["C13", "C14", "C15"], [
    (MOD, """        if self.activation is None:
            activation = tanh
        else:
            activation = self.activation

        for i, layer in enumerate(self.layers[:-1]):
            x = activation(nn.Dense(layer, name=f"layers_{i}")(x))

        output_neurons = self.layers[-1]
        x = nn.Dense(output_neurons, name="output_layer")(x)
        if output_neurons == 1:
            return x[..., 0]
        else:
            return x
""", """        activation = tanh if self.activation is None else self.activation
        *hidden, outputs = self.layers
        for i, width in enumerate(hidden):
            dense = nn.Dense(width, name=f"layers_{i}")
            x = activation(dense(x))
        x = nn.Dense(outputs, name="output_layer")(x)
        return jnp.squeeze(x, -1) if outputs == 1 else x
"""),
    (MOD, """            decay = jnp.exp(-decay_rate * (t - t0))
            value = model(*args, **kwargs)
            return m0(*args_m0) * decay + (1 - decay) * value
""", """            w = jnp.exp(decay_rate * (t0 - t))
            start = m0(*args_m0)
            return start * w + model(*args, **kwargs) * (1 - w)
"""),
    (MOD, """            l = adf(*x_adf)
            value = model(*args, **kwargs)
            x_g = (args[i] for i in argnums_g)
            value_g = _h(*x_g)
            return l * value + value_g
""", """            x_g = [args[i] for i in argnums_g]
            prescribed = _h(*x_g)
            return prescribed + adf(*x_adf) * model(*args, **kwargs)
"""),
    (SPL, """    n = grid.shape[-1] - degree - 1
    return vmap(lambda i: _base_fun(x, degree, i, grid), 0, -1)(jnp.arange(n))
""", """    n = grid.shape[-1] - degree - 1
    columns = [_base_fun(x, degree, i, grid) for i in range(n)]
    return jnp.stack(columns, axis=-1)
"""),
    (SPL, """        y = jnp.sum((basis(x, grid, degree=self.degree) * coefs), axis=-1)
        return self.activation(x) + y
""", """        B = basis(x, grid, degree=self.degree)
        spline = jnp.einsum("...i,...i->...", B, jnp.broadcast_to(coefs, B.shape))
        return spline + self.activation(x)
"""),
])
ref("domain-rewrite", ["C13", "C14"], [
    (DOM, """    x = jnp.apply_along_axis(insert, -1, x)
    x = transform_hypercube(x, lb, ub)
""", """    flat = x.reshape((-1, x.shape[-1]))
    flat = vmap(insert)(flat)
    x = flat.reshape(x.shape[:-1] + (dim,))
    x = transform_hypercube(x, lb, ub)
"""),
    (DOM, """    x1 = cos(phi) * (1 - x3**2) ** 0.5
    x2 = sin(phi) * (1 - x3**2) ** 0.5
""", """    rho = sqrt(1 - x3 * x3)
    x1, x2 = rho * cos(phi), rho * sin(phi)
"""),
    (DOM, """    x = where(x > 1.0, x % 1.0, x)
    return x * (ub - lb) + lb
""", """    wrapped = jnp.mod(x, 1.0)
    x = where(x > 1.0, wrapped, x)
    return lb + (ub - lb) * x
"""),
    (DOM, """    idx = jnp.argmax(_s[:, None] <= cumlengths, axis=-1)
""", """    reached = _s[:, None] <= cumlengths[None, :]
    idx = jnp.argmax(reached, axis=1)
"""),
    (DOM, """        if len(samples.shape) == 1:
            return self.B @ samples + a
        else:
            return samples @ self.B.T + a
""", """        return jnp.einsum("ij,...j->...i", self.B, samples) + a
"""),
])
ref("calc-rewrite", ["C13", "C14", "C01"], [
    (CALC, """        def comp(v):
            return tree_map(lambda a: a @ v, hvp(f, [primals], [v]))

        diag_entries = jax.vmap(comp)(vs)
        return diag_entries
""", """        second = jax.vmap(lambda v: hvp(f, [primals], [v]))(vs)

        def pick(v, h):
            return h @ v

        return tree_map(lambda h: jax.vmap(pick)(vs, h), second)
"""),
    (CALC, """        def _curl(J):
            x = J[..., 2, 1] - J[..., 1, 2]
            y = J[..., 0, 2] - J[..., 2, 0]
            z = J[..., 1, 0] - J[..., 0, 1]
            c = jnp.stack((x, y, z), axis=-1)
            return c
""", """        def _curl(J):
            pairs = ((2, 1), (0, 2), (1, 0))
            return jnp.stack([J[..., i, j] - J[..., j, i] for i, j in pairs], axis=-1)
"""),
    (UT, """    dtypes = set(p.dtype for p in tree_leaves(tree) if isinstance(p, Array))
    if not dtypes:
        return None
    if len(dtypes) == 1:
        return dtypes.pop()
    raise""", """    dtypes = {p.dtype for p in tree_leaves(tree) if isinstance(p, Array)}
    if len(dtypes) == 0:
        return None
    elif len(dtypes) == 1:
        (dtype,) = dtypes
        return dtype
    raise"""),
    (INT, """    F = jnp.apply_along_axis(g, -1, X)
    
    return tree.map(lambda z: jnp.tensordot(W, z, len(domain)), F)
""", """    values = jnp.apply_along_axis(g, -1, X)
    dims = W.ndim
    return tree.map(lambda z: jnp.tensordot(W, z, dims), values)
"""),
])


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or os.environ, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))


def main():
    ids = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for r in R:
        if ids and r["id"] not in ids:
            continue
        work = pathlib.Path(tempfile.mkdtemp(prefix="ref-"))
        try:
            repo = work / "repo"
            sh(["git", "clone", "-q", "/repo", str(repo)], "/")
            for f, old, new in r["edits"]:
                s = (repo / f).read_text()
                assert s.count(old) == 1, (r["id"], f, s.count(old), old[:60])
                (repo / f).write_text(s.replace(old, new))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
            env.pop("PYTHONPATH", None)
            t = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={work}/j.xml; /usr/bin/python3 /opt/vp/results.py {work}/o.json junit:{work}/j.xml", repo, env)
            try:
                o = json.load(open(work / "o.json"))
                lost = sorted(stable - set(o.get("passed", [])))
            except Exception as e:  # noqa: BLE001
                lost = [repr(e), t.stdout[-300:]]
            print(r["id"], "lost tests", lost, flush=True)
            for c in r["checks"]:
                p = sh([PY, str(ROOT / "check.py"), c], str(ROOT), dict(env, VERIF_REPO=str(repo)))
                print("   ", c, "quiet" if p.returncode == 0 else f"ALARM {p.returncode}", "|", [l for l in p.stdout.strip().split("\n") if l][-1 if p.returncode == 0 else 0][:300], flush=True)
        finally:
            shutil.rmtree(work)


if __name__ == "__main__":
    main()
