"""C07, C08: mini-batch streams under interleaved, failing, restarted and abandoned consumers."""
from __future__ import annotations

import threading
from collections import Counter

import jax
import jax.numpy as jnp
import numpy as np

from . import env as _env
from .core import MARK, Ctx, Injected, InjectedFault, Scenario, Violation, bits_equal, expect, lib


V = 100000  # identity offset per data version


# ---------------------------------------------------------------- data whose rows carry their identity
def make_data(kind, n, version, asnp):
    ids = np.arange(n, dtype=np.int32) + V * version
    f = ids.astype(np.float32)
    if kind == "array":
        t = f
    elif kind == "tuple":
        t = (np.stack([f, -f, f + 0.5], 1), f)
    elif kind == "dict":
        t = {"b": ids + np.int32((1 << 30) + 1), "c": (ids % 101).astype(np.int8), "h": np.where(ids % 5 == 0, np.nan, f).astype(np.float32), "x": np.stack([f, 2 * f], 1), "y": ids, "z": {"m": (ids % 2 == 0), "t": (f[:, None, None] * np.ones((1, 2, 2), np.float32))}}
    else:
        t = [np.stack([f] * 4, 1).reshape(n, 2, 2), ids.astype(np.float16), (f,)]
    return t if asnp else jax.tree.map(jnp.asarray, t)


def rows_of(kind, batch, where):
    """Decode a batch -> row ids; every leaf must tell the same story, exactly."""
    b = jax.tree.map(np.asarray, batch)
    if kind == "array":
        ids = b
        ok = True
    elif kind == "tuple":
        ids = b[1]
        ok = np.array_equal(b[0], np.stack([ids, -ids, ids + 0.5], -1))
    elif kind == "dict":
        ids = b["y"]
        f = ids.astype(np.float32)
        ok = b["b"].dtype == np.int32 and np.array_equal(b["b"], ids + ((1 << 30) + 1)) and np.array_equal(b["c"], (ids % 101).astype(np.int8)) and np.array_equal(b["h"], np.where(ids % 5 == 0, np.nan, f).astype(np.float32), equal_nan=True)
        ok = ok and np.array_equal(b["x"], np.stack([f, 2 * f], -1)) and np.array_equal(b["z"]["m"], ids % 2 == 0) and np.array_equal(b["z"]["t"], f[..., None, None] * np.ones((2, 2), np.float32))
    else:
        ids = b[2][0]
        ok = np.array_equal(b[0], np.broadcast_to(ids[..., None, None], (*ids.shape, 2, 2))) and np.array_equal(b[1], ids.astype(np.float16))
    expect(bool(ok), "misaligned", lambda: f"{where}: the leaves of a batch come from different rows or are altered: {jax.tree.map(lambda v: v.tolist(), b)}"[:500])
    r = np.asarray(ids).astype(np.int64)
    expect(bool(np.all(np.asarray(ids).astype(float) == r)), "foreign-row", f"{where}: batch contains values that are no input rows")
    return r


def structure(batch):
    return str(jax.tree.structure(batch)) + str([(v.shape, str(v.dtype)) for v in jax.tree.leaves(batch)])


def keydata(k):
    a = jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k
    return np.asarray(a).tobytes()


def make_key(seed, typed):
    """A key from both of its words: seeds below 2**32 are those of jax.random.key."""
    w = jnp.asarray(np.array([seed >> 32, seed & 0xFFFFFFFF], np.uint32))
    return jax.random.wrap_key_data(w) if typed else w


def any_seed(rng):
    """Mostly ordinary seeds; some keys as they come out of a split, with two random words."""
    return rng.randrange(2**31) if rng.random() < 0.6 else rng.randrange(2**64)


def size_of(blk, version):
    """Number of rows of a data version: in some worlds the data set grows and shrinks."""
    return blk["n"] + (blk["bs"] + 1 if blk.get("vary") and version % 2 else 0)


def on_thread(f):
    """Run f on a worker thread of its own, now."""
    out = []

    def body():
        try:
            out.append((f(), None))
        except BaseException as e:  # noqa: BLE001
            out.append((None, e))

    t = threading.Thread(target=body, name="consumer")
    t.start()
    t.join()
    v, e = out[0]
    if e is not None:
        raise e
    return v


class Source:
    """A consumer's batch function: real library batching over data the simulator changes, with injected failures."""

    def __init__(self, env, spec, ctx, holder):
        self.env, self.spec, self.ctx, self.holder = env, spec, ctx, holder
        self.calls = []     # (key bytes, version)
        self.ncall = 0

    def __call__(self, key):
        self.ncall += 1
        if self.spec.get("fail_epoch") == self.ncall:
            self.ctx.fault("batch_fn_raise")
            raise InjectedFault(MARK)
        self.calls.append((keydata(key), self.holder["version"], key))
        blk, opt = self.env["block"], self.env["magpi"].opt
        data = self.holder["data"]
        if blk["kind"] == "wor":
            return opt.batches_without_replacement(key, data, blk["bs"])
        nb = blk["nb"] + (1 if blk.get("vary") and self.holder["version"] % 2 else 0)
        return opt.batches_with_replacement(key, data, nb, blk["bs"], blk["rwb"])


class Batches(Scenario):
    components_real = ["magpi.opt.make_iterator, batches_without_replacement, batches_with_replacement, axis_size", "jax.random, JAX/XLA CPU"]
    components_stub = ["data source (rows carry their identity, replaced and overwritten in place between epochs)", "consumers and their schedule", "failures of the batch function"]
    measure = "digest of the schedule (which consumer advanced, closed, restarted, failed, when data changed)"
    rule = "a run is a seeded set of consumers over shared or separate batch functions and a seeded schedule of advance/close/restart/data-change events; non-trivial if more than one consumer or any fault"
    runs_per_block = 16
    blocks = {"quick": 108, "thorough": 800}
    expected_probes = ("batch_fn_raise", "closed_early", "restarted", "data_replaced", "data_overwritten", "interleaved", "epoch_completed", "exhausted", "drained", "long_stream", "other_thread", "data_resized")

    def gen_block(self, rng, tier):
        kind = rng.choice(["wor", "wor", "wr"])
        n = rng.choice([13, 16, 17, 24, 29, 29, 130])
        bs = rng.choice([1, 2, 3, 4, 5, 8, n, n // 2]) if n < 100 else rng.choice([16, 31, 65])
        if rng.random() < 0.05:
            bs = n + 1
        if self.block_index % 8 == 5:
            n = rng.choice([40000, 40000, 70000, 300, 700])
            kind = rng.choice(["wor", "wor", "wor", "wr"])
            bs = rng.choice([n // 3, n // 2, n, 9999] if n > 1000 else [1, 2, 100])
        blk = dict(kind=kind, tree=rng.choice(["array", "tuple", "dict", "list"]), n=n, bs=bs, nb=rng.choice([1, 3, 6, 6, 40]) if n < 1000 else rng.choice([1, 3]), rwb=rng.random() < 0.5, typed=rng.random() < 0.5, asnp=rng.random() < 0.3)
        if kind == "wr" and not blk["rwb"]:
            blk["bs"] = min(bs, n)
        if n <= 29 and rng.random() < 0.3:
            blk["vary"] = True
        return blk

    def gen_run(self, rng, blk, tier):
        nc = rng.choice([1, 2, 3, 4])
        cons = []
        shared = rng.random() < 0.6
        for i in range(nc):
            cons.append({"seed": any_seed(rng) if rng.random() < 0.7 or not i else (cons[0]["seed"] if rng.random() < 0.7 else cons[0]["seed"] ^ (rng.randrange(1, 2**32) << rng.choice([0, 32]))), "epochs": rng.choice([0, 1, 2, 3, 5]), "add_rng": rng.random() < 0.5,
                         "fail_epoch": rng.choice([1, 2, 3]) if rng.random() < 0.2 else None, "holder": 0 if shared else i})
        nev = rng.choice([10, 30, 60])
        ev = []
        if blk["n"] < 50 and rng.random() < 0.03:
            # one long stream
            cons[0].update(epochs=rng.choice([40, 150, 300]), fail_epoch=None)
            ev.append({"e": "drain", "c": 0})
        for _ in range(nev):
            u = rng.random()
            c = rng.randrange(nc)
            if u < 0.86:
                ev.append({"e": "next", "c": c})
                if rng.random() < 0.15:
                    ev[-1]["t"] = True      # from another thread
            elif u < 0.87:
                ev.append({"e": "drain", "c": c})
            elif u < 0.9:
                ev.append({"e": "close", "c": c})
            elif u < 0.94:
                ev.append({"e": "restart", "c": c})
            elif u < 0.97 or blk.get("vary"):
                ev.append({"e": "replace", "h": rng.randrange(nc)})
            else:
                ev.append({"e": "overwrite", "h": rng.randrange(nc)})
        return dict(consumers=cons, events=ev, probe_seed=rng.randrange(2**30))

    list_fields = ("events",)

    def setup(self, block):
        return dict(magpi=_env.load_magpi(), block=block)

    def simulate(self, env, plan, ctx):
        """Run the schedule; returns per consumer incarnation (spec, source, items, outcome)."""
        blk = env["block"]
        opt = env["magpi"].opt
        holders = [dict(version=0, data=make_data(blk["tree"], blk["n"], 0, blk["asnp"])) for _ in range(max(c["holder"] for c in plan["consumers"]) + 1)]
        inc = []

        def start(i):
            c = plan["consumers"][i]
            src = Source(env, c, ctx, holders[c["holder"]])
            key = make_key(c["seed"], blk["typed"])
            it = lib(opt.make_iterator, key, c["epochs"], src, c["add_rng"])
            r = dict(c=i, spec=c, src=src, it=iter(it), items=[], out="open", key=keydata(key))
            inc.append(r)
            return r

        cur = [start(i) for i in range(len(plan["consumers"]))]
        if len(cur) > 1:
            ctx.nontrivial = True
        last = None
        for ev in plan["events"]:
            ctx.steps += 1
            if ev["e"] in ("replace", "overwrite"):
                if ev["h"] >= len(holders):
                    continue
                h = holders[ev["h"]]
                h["version"] += 1
                new = make_data(blk["tree"], size_of(blk, h["version"]), h["version"], blk["asnp"])
                if ev["e"] == "overwrite" and blk["asnp"]:
                    for a, b in zip(jax.tree.leaves(h["data"]), jax.tree.leaves(new)):
                        a[...] = b
                    ctx.probe("data_overwritten")
                else:
                    h["data"] = new
                    ctx.probe("data_replaced")
                    if blk.get("vary"):
                        ctx.probe("data_resized")
                ctx.fault("data_change")
                ctx.choice(ev["e"], ev["h"])
                continue
            if ev["c"] >= len(cur):
                continue
            r = cur[ev["c"]]
            ctx.choice(ev["e"], ev["c"])
            if ev["e"] == "close":
                if r["out"] == "open":
                    if hasattr(r["it"], "close"):
                        r["it"].close()
                    r["out"] = "closed"
                    ctx.fault("consumer_closed")
                    ctx.probe("closed_early")
            elif ev["e"] == "restart":
                cur[ev["c"]] = start(ev["c"])
                ctx.fault("consumer_restarted")
                ctx.probe("restarted")
            if ev["e"] == "drain":
                ctx.probe("drained")
                if r["spec"]["epochs"] > 20:
                    ctx.probe("long_stream")
            for _ in range({"next": 1, "drain": 800}.get(ev["e"], 0)):
                if r["out"] != "open":
                    break
                if last is not None and last != ev["c"]:
                    ctx.probe("interleaved")
                last = ev["c"]
                try:
                    if ev.get("t"):
                        item = on_thread(lambda: lib(next, r["it"], None))
                        ctx.probe("other_thread")
                    else:
                        item = lib(next, r["it"], None)
                except Injected:
                    r["out"] = "failed"
                    break
                if item is None:
                    r["out"] = "exhausted"
                    ctx.probe("exhausted")
                    break
                sub, batch = item if r["spec"]["add_rng"] else (None, item)
                r["items"].append((sub, jax.tree.map(lambda v: np.array(v, copy=True), batch), len(r["src"].calls) - 1))
                ctx.log(ev["c"], *[np.asarray(v) for v in jax.tree.leaves(batch)])
        return inc

    def per_epoch(self, blk, version=0):
        return size_of(blk, version) // blk["bs"] if blk["kind"] == "wor" else blk["nb"] + (1 if blk.get("vary") and version % 2 else 0)


class C07(Batches):
    id = "C07"
    expected_probes = Batches.expected_probes + ("every_row_dealt", "ragged_refused")

    def execute(self, env, plan, ctx: Ctx):
        blk = env["block"]
        inc = self.simulate(env, plan, ctx)
        for k, r in enumerate(inc):
            w = f"consumer {r['c']} (incarnation {k})"
            if r["out"] == "failed":
                expect(r["spec"]["fail_epoch"] is not None and r["src"].ncall == r["spec"]["fail_epoch"], "spurious-failure", f"{w}: failed without its batch function failing")
            epochs = {}
            for sub, batch, ep in r["items"]:
                epochs.setdefault(ep, []).append(batch)
            for ep, bs in epochs.items():
                ver = r["src"].calls[ep][1]
                N, E = size_of(blk, ver), self.per_epoch(blk, ver)
                rows = []
                for j, b in enumerate(bs):
                    ww = f"{w}, epoch {ep}, batch {j}"
                    ids = rows_of(blk["tree"], b, ww)
                    expect(ids.shape == (blk["bs"],), "batch-size", f"{ww}: batch has shape {ids.shape}, requested size {blk['bs']}")
                    expect(bool(np.all((ids >= V * ver) & (ids < V * ver + N))), "foreign-row", lambda: f"{ww}: rows {ids.tolist()} are not rows of the data of this epoch (version {ver}, {N} rows)")
                    if blk["kind"] == "wr" and not blk["rwb"]:
                        expect(len(set(ids.tolist())) == len(ids), "repeated-in-batch", lambda: f"{ww}: rows repeat within a batch drawn without replacement: {ids.tolist()}")
                    rows += ids.tolist()
                if blk["kind"] == "wor":
                    expect(len(set(rows)) == len(rows), "repeated-in-epoch", lambda: f"{w}, epoch {ep}: rows dealt twice: {sorted(v for v, c in Counter(rows).items() if c > 1)[:20]}")
                expect(len(bs) <= E, "epoch-length", f"{w}, epoch {ep}: {len(bs)} batches, expected {E}")
                complete = ep < len(r["src"].calls) - 1 or r["out"] == "exhausted"
                if complete:
                    expect(len(bs) == E, "epoch-length", f"{w}, epoch {ep}: {len(bs)} batches, expected {E}")
                    ctx.probe("epoch_completed")
            if r["out"] == "exhausted":
                Es = [self.per_epoch(blk, v) for _, v, _ in r["src"].calls]
                expect(len(Es) == r["spec"]["epochs"] and len(r["items"]) == sum(Es), "stream-length", f"{w}: {len(r['items'])} batches in {r['spec']['epochs']} epochs of {Es}")
        self.coverage(env, plan, ctx)
        self.ragged(env, plan, ctx)

    def coverage(self, env, plan, ctx):
        """Over repeated epochs every row gets its turn."""
        blk, opt = env["block"], env["magpi"].opt
        n, E = blk["n"], self.per_epoch(blk)
        if not E:
            return
        draws = E * blk["bs"]
        miss = (1 - draws / n) if blk["kind"] == "wor" else (1 - 1 / n) ** (draws if blk["rwb"] else E * blk["bs"])
        ep, seen = 0, set()
        need = 1 if miss <= 0 else int(np.ceil(np.log(1e-12 / n) / np.log(max(miss, 1e-300))))
        if need > 60 or plan["probe_seed"] % 3:
            return
        data = make_data(blk["tree"], n, 4, blk["asnp"])
        src = Source(env, {}, ctx, dict(version=4, data=data))
        cnt = 0
        for b in lib(lambda: list(opt.make_iterator(make_key(plan["probe_seed"], blk["typed"]), need, src))):
            ids = rows_of(blk["tree"], b, "coverage epoch")
            expect(bool(np.all((ids >= 4 * V) & (ids < 4 * V + n))), "foreign-row", "coverage epoch: foreign rows")
            seen.update(ids.tolist())
            cnt += 1
        expect(cnt == need * E, "stream-length", f"{cnt} batches in {need} epochs of {E}")
        expect(len(seen) == n, "row-never-dealt", lambda: f"rows {sorted(set(range(4 * V, 4 * V + n)) - seen)[:20]} never dealt in {need} epochs (chance 1e-12)")
        ctx.probe("every_row_dealt")

    def ragged(self, env, plan, ctx):
        blk, opt = env["block"], env["magpi"].opt
        if plan["probe_seed"] % 4:
            return
        n = blk["n"]
        key = make_key(plan["probe_seed"], blk["typed"])
        d = plan["probe_seed"] // 4 % 3 - 1 or 2
        a, b = jnp.arange(n + max(d, 0)), jnp.arange(n + max(-d, 0))
        for bad in ((a, b), {"p": b, "q": a}, [jnp.zeros((n, 2)), b, a]):
            for f in (lambda: opt.batches_without_replacement(key, bad, min(blk["bs"], n)), lambda: opt.batches_with_replacement(key, bad, 2, min(blk["bs"], n))):
                try:
                    out = f()
                except Exception:
                    ctx.probe("ragged_refused")
                    continue
                raise Violation("ragged-accepted", f"arrays of lengths {[v.shape[0] for v in jax.tree.leaves(bad)]} were dealt into batches of shapes {[v.shape for v in jax.tree.leaves(out)]}")
        it = opt.make_iterator(key, 1, lambda k: (jnp.zeros((3, 2)), jnp.zeros((2 + (d > 0) * 2, 2))))
        try:
            got = list(it)
        except Exception:
            ctx.probe("ragged_refused")
            return
        raise Violation("ragged-accepted", f"a batch function returning 3 and {2 + (d > 0) * 2} batches was accepted, {len(got)} batches yielded")


class C08(Batches):
    id = "C08"
    expected_probes = tuple(p for p in Batches.expected_probes if p != "epoch_completed") + ("solo_replayed", "keys_checked", "prefix_checked", "add_rng_transparent")

    def solo(self, env, spec, versions, epochs, add_rng, ctx):
        """The same stream alone, on the data versions its epochs saw."""
        blk, opt = env["block"], env["magpi"].opt
        holder = dict(version=0, data=None)
        src = Source(env, {}, Ctx(), holder)

        def fn(key):
            v = versions[min(src.ncall, len(versions) - 1)] if versions else 0
            holder.update(version=v, data=make_data(blk["tree"], size_of(blk, v), v, blk["asnp"]))
            return src(key)

        items = []
        for item in lib(lambda: list(opt.make_iterator(make_key(spec["seed"], blk["typed"]), epochs, fn, add_rng))):
            sub, b = item if add_rng else (None, item)
            items.append((sub, jax.tree.map(np.asarray, b)))
        return src, items

    def execute(self, env, plan, ctx: Ctx):
        blk = env["block"]
        inc = self.simulate(env, plan, ctx)
        for k, r in enumerate(inc):
            w = f"consumer {r['c']} (incarnation {k})"
            c = r["spec"]
            vers = [v for _, v, _ in r["src"].calls]
            if r["items"] and (k + plan["probe_seed"]) % 2 == 0:
                extra = (plan["probe_seed"] >> 3) % 2
                other_rng = bool((plan["probe_seed"] >> 4) % 2)
                add = c["add_rng"] != other_rng
                src, items = self.solo(env, c, vers, max(len(vers), 1) + extra, add, ctx)
                ctx.probe("solo_replayed")
                if extra:
                    ctx.probe("prefix_checked")
                if add != c["add_rng"]:
                    ctx.probe("add_rng_transparent")
                expect([a for a, _, _ in src.calls][:len(vers)] == [a for a, _, _ in r["src"].calls], "epoch-keys-differ", f"{w}: a fresh iterator with the same key hands its batch function other keys")
                expect(len(items) >= len(r["items"]), "stream-differs", f"{w}: a fresh iterator with the same key yields only {len(items)} batches, had {len(r['items'])}")
                for j, ((s0, b0, _), (s1, b1)) in enumerate(zip(r["items"], items)):
                    expect(structure(b0) == structure(b1) and all(bits_equal(x, y) for x, y in zip(jax.tree.leaves(b0), jax.tree.leaves(b1))), "stream-differs",
                           f"{w}: batch {j} differs from that of a fresh iterator with the same key (add_rng {c['add_rng']} vs {add}, {c['epochs']} vs {len(vers) + extra} epochs)")
                    if s0 is not None and s1 is not None:
                        expect(keydata(s0) == keydata(s1), "subkeys-differ", f"{w}: random key {j} differs from that of a fresh iterator with the same key")
            # --- keys handed out
            handed = [(f"epoch {i}", kb, key) for i, (kb, _, key) in enumerate(r["src"].calls)]
            handed += [(f"batch {j}", keydata(s), s) for j, (s, _, _) in enumerate(r["items"]) if s is not None]
            seen = {r["key"]: "the stream's own key"}
            for name, kb, _ in handed:
                expect(kb not in seen, "key-reused", lambda: f"{w}: the key handed out for {name} equals that of {seen[kb]}")
                seen[kb] = name
            if (k + plan["probe_seed"]) % 3 == 0 and handed:
                ctx.probe("keys_checked")
                step = max(1, len(handed) // 12)
                for name, kb, key in handed[:6] + handed[6::step]:
                    for m in (2, 3):
                        for ch in jax.random.split(key, m):
                            b = keydata(ch)
                            expect(b not in seen, "key-derived", lambda: f"{w}: the key handed out for {seen[b]} can be derived by splitting the one handed out for {name}")
        # --- different keys, different shuffles; every epoch shuffles anew
        E = self.per_epoch(blk)
        if blk["kind"] == "wor" and 2 <= blk["bs"] and E >= 1 and E * blk["bs"] >= 15:
            orders = {}
            for k, r in enumerate(inc):
                for ep, (kb, ver, _) in enumerate(r["src"].calls):
                    bs = [b for _, b, e in r["items"] if e == ep]
                    if len(bs) != self.per_epoch(blk, ver):
                        continue
                    o = tuple(np.concatenate([rows_of(blk["tree"], b, "order") for b in bs]) - V * ver)
                    ident = (r["spec"]["seed"], ep)
                    for other, oo in orders.items():
                        if other != ident:
                            expect(oo != o, "same-shuffle", f"key {ident[0]} epoch {ident[1]} and key {other[0]} epoch {other[1]} deal the rows in the same order (chance < 1e-12)")
                    expect(o != tuple(range(len(o))), "not-shuffled", f"key {ident[0]} epoch {ident[1]} deals the rows in their original order (chance < 1e-12)")
                    orders[ident] = o
