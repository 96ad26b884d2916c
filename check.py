#!/opt/venv/bin/python
"""Deterministic-simulation checks for MagPI.

  check.py C01                      run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C01 --tier thorough
  check.py --replay FILE            re-execute a replay file; exit 1 and print the violation if it reproduces
  check.py C01 --determinism        run a sample of seeds several times in different processes and compare event logs
"""
import argparse
import atexit
import json
import os
import pathlib
import signal
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SOFT = {"quick": 240.0, "thorough": 660.0}
HARD = {"quick": 620.0, "thorough": 840.0}
HANG = 200.0  # seconds without any sign of life from a worker
SHRINK_S = 60.0


def load_scenario(pid):
    sys.path.insert(0, str(ROOT))
    from sim import registry

    return registry.get(pid)


def child_env(extra=None):
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["JAX_PLATFORMS"] = "cpu"
    env.pop("PYTHONPATH", None)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    env.update(extra or {})
    return env


def xla_cache():
    """Scratch directory through which the processes of one check share compiled programs."""
    if "VERIF_XLA_CACHE" not in os.environ:
        d = tempfile.mkdtemp(prefix="verif-xla-")
        atexit.register(shutil.rmtree, d, True)
        os.environ["VERIF_XLA_CACHE"] = d


def known_findings(pid):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text())["findings"] if e["property"] == pid and e["status"] == "open"]


def match_known(known, cls, msg):
    for e in known:
        if e["class"] == cls and e["match"] in msg:
            return e
    return None


# ------------------------------------------------------------------ worker side
def emit(o):
    sys.stdout.write(json.dumps(o) + "\n")
    sys.stdout.flush()


def execute_plan(sc, env, plan, keep_log=False):
    """-> (ctx, violation or None).  Harness errors propagate."""
    from sim import core

    ctx = core.Ctx(keep_log)
    try:
        sc.execute(env, plan, ctx)
        return ctx, None
    except core.Violation as v:
        return ctx, v


def block_and_plan(sc, seed, tier, b, r, block=None):
    from sim import core

    if block is None:
        sc.block_index = b
        block = sc.gen_block(core.rng_for(seed, sc.id, "block", b), tier)
        block = json.loads(core.dumps(block))
    if r is None:
        return block, None
    plan = sc.gen_run(core.rng_for(seed, sc.id, "run", b, r), block, tier)
    return block, json.loads(core.dumps(plan))


def worker(args):
    from sim import core

    sc = load_scenario(args.property)
    known = known_findings(args.property)
    deadline = time.time() + args.soft
    nruns = args.runs or sc.runs_per_block
    blocks = json.loads(args.blocks)
    for b in blocks:
        if time.time() > deadline:
            emit({"t": "soft"})
            break
        emit({"t": "block", "b": b})
        block, _ = block_and_plan(sc, args.seed, args.tier, b, None)
        preamble = []
        try:
            env = sc.setup(block)
        except core.Violation as v:
            k = match_known(known, v.cls, v.msg)
            if k:
                emit({"t": "known", "what": k["what"]})
                continue
            emit({"t": "viol", "b": b, "r": -1, "block": block, "plan": None, "preamble": 0, "cls": v.cls, "msg": v.msg})
            return
        for r in range(nruns):
            if time.time() > deadline:
                emit({"t": "soft"})
                break
            _, plan = block_and_plan(sc, args.seed, args.tier, b, r, block)
            emit({"t": "start", "b": b, "r": r})
            t0 = time.time()
            ctx, v = execute_plan(sc, env, plan)
            if v is not None:
                k = match_known(known, v.cls, v.msg)
                if k:
                    emit({"t": "known", "what": k["what"]})
                    continue
                emit({"t": "viol", "b": b, "r": r, "block": block, "plan": plan, "preamble": r, "cls": v.cls, "msg": v.msg})
                return
            rec = {"t": "run", "b": b, "r": r, "d": ctx.log.digest(), "s": ctx.sched.hexdigest(), "f": dict(ctx.faults), "p": dict(ctx.probes),
                   "n": ctx.steps, "time": ctx.sim_time, "nt": bool(ctx.nontrivial), "w": round(time.time() - t0, 4)}
            if r == 0 and b in (blocks[0],):
                rec["sample"] = {"block": block, "plan": plan}
            emit(rec)
            preamble.append(r)
    emit({"t": "done"})


def run_replay(rep, sc, keep_log=False):
    """Execute a replay record; -> (cls, msg) or None."""
    from sim import core

    block = rep["block"]
    try:
        env = sc.setup(block)
    except core.Violation as v:
        return v.cls, v.msg, None
    for plan in rep.get("preamble", []):
        execute_plan(sc, env, plan)
    if rep["plan"] is None:
        return None
    ctx, v = execute_plan(sc, env, rep["plan"], keep_log)
    if v is None:
        return None
    return v.cls, v.msg, ctx.log.events


def replay_cmd(path):
    rep = json.loads(pathlib.Path(path).read_text())
    sc = load_scenario(rep["property"])
    res = run_replay(rep, sc, keep_log=True)
    if res is None:
        print(f"replay of {path}: property {rep['property']} held")
        return 0
    cls, msg, events = res
    print(f"replay of {path}: {cls}: {msg}")
    if events:
        for e in events[-40:]:
            print("   event", json.dumps(e)[:300])
    print(f"VIOLATION property={rep['property']} replay={path}")
    return 1


def shrink_cmd(args):
    """Minimise the plan of a replay file in place."""
    path = pathlib.Path(args.shrink)
    rep = json.loads(path.read_text())
    sc = load_scenario(rep["property"])
    from sim import core

    if rep["plan"] is None:
        return 0
    t_end = time.time() + args.soft
    env = sc.setup(rep["block"])
    for plan in rep.get("preamble", []):
        execute_plan(sc, env, plan)
    tries = 0

    def still(plan):
        nonlocal tries
        tries += 1
        try:
            _, v = execute_plan(sc, env, plan)
        except Exception:  # an ill-formed candidate
            return False
        return v is not None and v.cls == rep["cls"]

    if not still(rep["plan"]):
        emit({"t": "shrink", "ok": False})
        return 0
    plan = rep["plan"]
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for cand in sc.shrink(plan):
            if time.time() > t_end:
                break
            cand = json.loads(core.dumps(cand))
            if still(cand):
                plan = cand
                progress = True
                break
    rep["original_plan"] = rep["plan"]
    rep["plan"] = plan
    rep["shrink_tries"] = tries
    path.write_text(json.dumps(rep, indent=1))
    emit({"t": "shrink", "ok": True, "tries": tries})
    return 0


# ------------------------------------------------------------------ parent side
class Worker:
    def __init__(self, args, blocks, soft, errdir, i, extra_env=None, runs=0):
        self.i = i
        self.err = open(errdir / f"worker{i}.err", "wb")
        cmd = [PY, str(ROOT / "check.py"), args.property, "--worker", "--tier", args.tier, "--seed", str(args.seed),
               "--blocks", json.dumps(blocks), "--soft", str(soft), "--runs", str(runs)]
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=self.err, cwd=ROOT, env=child_env(extra_env), start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.last = time.time()
        self.where = None
        self.done = False
        self.eof = False

    def poll(self):
        out = []
        try:
            while True:
                chunk = self.p.stdout.read(1 << 16)
                if chunk is None:
                    break
                if chunk == b"":
                    self.eof = True
                    break
                self.buf += chunk
                self.last = time.time()
        except BlockingIOError:
            pass
        *lines, self.buf = self.buf.split(b"\n")
        for ln in lines:
            if ln.startswith(b"{"):
                o = json.loads(ln)
                if o["t"] in ("start", "block"):
                    self.where = o
                if o["t"] == "done":
                    self.done = True
                out.append(o)
        return out

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.err.close()


def nworkers():
    return int(os.environ.get("VERIF_WORKERS", 0)) or max(1, min(8, os.cpu_count() or 1))


def sub(args_list, timeout, extra_env=None):
    try:
        p = subprocess.run([PY, str(ROOT / "check.py")] + args_list, cwd=ROOT, env=child_env(extra_env), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, ""


def report_violation(args, sc, v, started):
    """Write, minimise and confirm the replay file; print the VIOLATION line."""
    from sim import core  # noqa: F401

    repdir = ROOT / "replays"
    repdir.mkdir(exist_ok=True)
    path = repdir / f"{args.property}-seed{args.seed}-{v['b']}-{v['r']}.json"
    rep = {"property": args.property, "seed": args.seed, "tier": args.tier, "block_index": v["b"], "run_index": v["r"],
           "cls": v["cls"], "msg": v["msg"], "block": v["block"], "plan": v["plan"], "preamble": []}
    path.write_text(json.dumps(rep, indent=1))
    print(f"[{args.property}] seed={args.seed} block={v['b']} run={v['r']}: {v['cls']}: {v['msg'][:600]}")
    confirmed = False
    if v["cls"] != "hang":
        sub([args.property, "--shrink", str(path), "--soft", str(SHRINK_S)], SHRINK_S + 120)
        rc, out = sub(["--replay", str(path)], 200)
        confirmed = rc == 1
        if not confirmed:
            # the plan alone does not reproduce: restore it and put the earlier runs of the block in front
            rep["preamble"] = [block_and_plan(sc, args.seed, args.tier, v["b"], r, v["block"])[1] for r in range(v["preamble"])]
            path.write_text(json.dumps(rep, indent=1))
            rc, out = sub(["--replay", str(path)], 200)
            confirmed = rc == 1
        rep = json.loads(path.read_text())
        n0 = {k: len(x) for k, x in (rep.get("original_plan") or {}).items() if isinstance(x, list)}
        n1 = {k: len(x) for k, x in (rep.get("plan") or {}).items() if isinstance(x, list)}
        print(f"[{args.property}] minimised {n0} -> {n1}; fresh-process replay {'reproduces it' if confirmed else 'DID NOT reproduce it'}")
    rep["replay_confirmed"] = confirmed
    path.write_text(json.dumps(rep, indent=1))
    print(f"VIOLATION property={args.property} replay={path}")
    sys.stdout.flush()
    return path


def main_check(args):
    sc = load_scenario(args.property)
    t0 = time.time()
    nb = args.nblocks or sc.blocks[args.tier]
    W = min(nworkers(), nb)
    errdir = ROOT / "evidence"
    errdir.mkdir(exist_ok=True)
    errdir = errdir / "logs" / args.property
    errdir.mkdir(parents=True, exist_ok=True)
    (ROOT / "evidence" / f"{args.property}.json").unlink(missing_ok=True)
    soft, hard = SOFT[args.tier], HARD[args.tier]
    ws = [Worker(args, list(range(i, nb, W)), soft, errdir, i, runs=args.runs) for i in range(W)]
    agg = {"runs": 0, "digests": set(), "sched": set(), "faults": {}, "probes": {}, "steps": 0, "sim_time": 0.0, "nontrivial": set(), "cpu": 0.0, "known": set(), "soft": 0}
    samples, viol, error = [], None, None
    while True:
        alive = False
        for w in ws:
            for o in w.poll():
                if o["t"] == "run":
                    agg["runs"] += 1
                    agg["digests"].add(o["d"])
                    agg["sched"].add(o["s"])
                    if o["nt"]:
                        agg["nontrivial"].add(o["d"])
                    for k, n in o["f"].items():
                        agg["faults"][k] = agg["faults"].get(k, 0) + n
                    for k, n in o["p"].items():
                        agg["probes"][k] = agg["probes"].get(k, 0) + n
                    agg["steps"] += o["n"]
                    agg["sim_time"] += o["time"]
                    agg["cpu"] += o["w"]
                    if "sample" in o and len(samples) < 2:
                        samples.append(o["sample"])
                elif o["t"] == "viol" and viol is None:
                    viol = o
                elif o["t"] == "known":
                    agg["known"].add(o["what"])
                elif o["t"] == "soft":
                    agg["soft"] += 1
            if w.eof:
                rc = w.p.wait()
                if rc != 0 and viol is None and error is None:
                    error = f"worker {w.i} exited with {rc} at {w.where}; see {errdir}/worker{w.i}.err"
            elif w.p.poll() is None or not w.eof:
                alive = True
                if time.time() - w.last > HANG:
                    if sc.hang_is_violation and w.where and w.where["t"] == "start" and viol is None:
                        b, r = w.where["b"], w.where["r"]
                        block, plan = block_and_plan(sc, args.seed, args.tier, b, r)
                        viol = {"b": b, "r": r, "block": block, "plan": plan, "preamble": r, "cls": "hang", "msg": f"no progress for {HANG} s"}
                    elif error is None:
                        error = f"worker {w.i} made no progress for {HANG} s at {w.where}"
        if viol or error or not alive:
            break
        if time.time() - t0 > hard:
            error = f"hard wall-clock limit {hard} s reached"
            break
        time.sleep(0.05)
    for w in ws:
        w.kill()
    if viol:
        report_violation(args, sc, viol, t0)
    wall = time.time() - t0
    known = known_findings(args.property)
    for e in known:
        print(f"KNOWN-FINDING: property={args.property} {e['what']}")
    if agg["runs"] == 0 and not viol and not error:
        error = "no run completed"
    never = sorted(k for k in getattr(sc, "expected_probes", ()) if not agg["probes"].get(k) and not agg["faults"].get(k))
    ev = {
        "property": args.property, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": sc.rule,
            "samples": samples,
            "simulated_runs": agg["runs"],
            "runs_per_hour": round(agg["runs"] / wall * 3600) if wall else 0,
            "seeds": {"VERIF_SEED": args.seed, "blocks": nb, "runs_per_block": args.runs or sc.runs_per_block, "derivation": "blake2b(VERIF_SEED, property, block, run)"},
            "simulated_steps": agg["steps"],
            "simulated_time": round(agg["sim_time"], 3),
            "fault_kinds_fired": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "probes_never_hit": never,
            "distinct_histories": len(agg["digests"]),
            "distinct_interleavings_or_state_sequences": len(agg["sched"]),
            "distinctness_measure": sc.measure,
            "components_real": sc.components_real,
            "components_stub": sc.components_stub,
            "workers": W,
            "workers_stopped_by_soft_limit": agg["soft"],
            "known_findings_hit": sorted(agg["known"]),
        },
        "assumptions": getattr(sc, "assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    if error:
        ev["coverage"]["error"] = error
    (ROOT / "evidence" / f"{args.property}.json").write_text(json.dumps(ev, indent=1))
    if viol:
        return 1
    if error:
        print(f"ERROR property={args.property} {error}")
        for w in ws:
            f = errdir / f"worker{w.i}.err"
            tail = f.read_bytes()[-1500:].decode(errors="replace") if f.exists() else ""
            if "Traceback" in tail:
                print(tail)
                break
        return 2
    print(f"[{args.property}] held on {agg['runs']} runs ({len(agg['nontrivial'])} distinct non-trivial, {len(agg['sched'])} distinct interleavings/state sequences), "
          f"faults {sum(agg['faults'].values())}, seed {args.seed}, {wall:.1f} s" + (f"; never hit: {never}" if never else ""))
    return 0


def determinism(args):
    """Same seeds in several processes: different worker counts, hash seeds; event logs must agree."""
    sc = load_scenario(args.property)
    nb = args.nblocks or min(8, sc.blocks["quick"])
    ref = None
    errdir = ROOT / "evidence" / "logs" / args.property
    errdir.mkdir(parents=True, exist_ok=True)
    bad = 0
    for trial, (W, hs) in enumerate([(8, "0"), (3, "1"), (8, "12345"), (5, "7")]):
        W = min(W, nb)
        ws = [Worker(args, list(range(i, nb, W)), 1e9, errdir, i, {"PYTHONHASHSEED": hs}, runs=args.runs) for i in range(W)]
        got = {}
        while ws:
            for w in list(ws):
                for o in w.poll():
                    if o["t"] == "run":
                        got[(o["b"], o["r"])] = (o["d"], o["s"], json.dumps(o["f"], sort_keys=True))
                    if o["t"] == "viol":
                        print("violation during determinism run", o["cls"], o["msg"])
                        bad += 1
                if w.eof:
                    if w.p.wait() != 0:
                        print("worker failed", w.where)
                        bad += 1
                    ws.remove(w)
            time.sleep(0.05)
        if ref is None:
            ref = got
        else:
            diff = [k for k in ref if got.get(k) != ref[k]]
            print(f"{args.property}: trial {trial} workers={W} hashseed={hs}: {len(got)} runs, {len(diff)} differ", diff[:5])
            bad += len(diff)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--blocks", default="[]")
    ap.add_argument("--soft", type=float, default=100.0)
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--nblocks", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--shrink")
    ap.add_argument("--determinism", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.replay:
        return replay_cmd(args.replay)
    if args.shrink:
        return shrink_cmd(args)
    if args.worker:
        try:
            worker(args)
            return 0
        except Exception:
            traceback.print_exc()
            return 3
    xla_cache()
    if args.determinism:
        return determinism(args)
    try:
        return main_check(args)
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
