"""Systematic mutants of the library: which survive the stable tests, and which of those do the checks report?

usage: mutants.py screen FILE.py OUT.jsonl [--jobs=N]       FILE relative to magpi/; runs the tests on every mutant
       mutants.py check OUT.jsonl RES.jsonl C01,C02,..       runs the checks (first alarm wins) on the survivors
"""
import ast, json, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
ENV.pop("PYTHONPATH", None)
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.FloorDiv: ["*"], ast.Mod: ["//"]}
CALLS = {"minimum": "maximum", "maximum": "minimum", "any": "all", "all": "any", "logical_and": "logical_or", "logical_or": "logical_and", "isfinite": "isnan"}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    data = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return data[a:b].decode()

    docs, anns = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                anns.update(id(m) for m in ast.walk(x))
    out = []

    def rep(n, new, what):
        a, b = span(n)
        s = (data[:a] + new.encode() + data[b:]).decode()
        try:
            compile(s, "m", "exec")
        except SyntaxError:
            return
        out.append((n.lineno, what, s))

    for n in ast.walk(tree):
        if id(n) in docs or id(n) in anns:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", f"{seg(n)} -> {o}")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, f"({seg(n.left)}) {o} ({seg(n.right)})", f"{seg(n)} -> {o}")
            if isinstance(n.op, (ast.Mult, ast.Add, ast.Sub)):
                rep(n, f"({seg(n.left)})", f"{seg(n)} -> left"); rep(n, f"({seg(n.right)})", f"{seg(n)} -> right")
        elif isinstance(n, ast.UnaryOp):
            rep(n, f"({seg(n.operand)})", f"{seg(n)} -> drop op")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            rep(n, "(" + f" {o} ".join(f"({seg(v)})" for v in n.values) + ")", f"{seg(n)} -> {o}")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), f"{n.value} -> {not n.value}")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), f"{n.value} -> {n.value + 1}")
                if n.value not in (0,):
                    rep(n, str(n.value - 1), f"{n.value} -> {n.value - 1}")
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 2 or 1.0), f"{n.value} -> *2"); rep(n, repr(n.value / 10 or 0.1), f"{n.value} -> /10")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in CALLS:
                rep(f, seg(f)[: -len(name)] + CALLS[name], f"{seg(n)[:60]} -> {CALLS[name]}")
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    x, y = n.args[i], n.args[i + 1]
                    if isinstance(x, ast.Starred) or isinstance(y, ast.Starred):
                        continue
                    a, b = span(x)[0], span(y)[1]
                    mid = data[span(x)[1]:span(y)[0]].decode()
                    s = (data[:a] + (seg(y) + mid + seg(x)).encode() + data[b:]).decode()
                    try:
                        compile(s, "m", "exec"); out.append((n.lineno, f"{seg(n)[:80]} swap args {i}", s))
                    except SyntaxError:
                        pass
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    args = [seg(a) for a in n.args] + [seg(q) for q in n.keywords if q is not k]
                    rep(n, f"{seg(f)}({', '.join(args)})", f"{seg(n)[:80]} drop {k.arg}")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", f"if {seg(n.test)} -> True"); rep(n.test, "False", f"if {seg(n.test)} -> False")
        elif isinstance(n, (ast.Expr, ast.AugAssign)):
            rep(n, "pass", f"drop {seg(n)[:60]}")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            rep(n, "pass", f"drop {seg(n)[:60]}")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            rep(n.value, f"{seg(n.value.elts[1])}, {seg(n.value.elts[0])}", f"{seg(n)[:60]} swap")
    seen, uniq = set(), []
    for m in out:
        if m[2] not in seen and m[2] != src:
            seen.add(m[2]); uniq.append(m)
    return sorted(uniq, key=lambda m: m[0])


def screen(fname, outp, jobs):
    rel = f"magpi/{fname}"
    src = pathlib.Path("/repo", rel).read_text()
    ms = mutants(src)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    mods = {"tr.py": ["test_tr"], "opt.py": ["test_opt"], "sampling.py": ["test_sampling"], "ode.py": ["test_ode"], "model.py": ["test_model"], "spline.py": ["test_spline"], "calc.py": [], "utils.py": [], "domain.py": ["test_domain"], "r_fun.py": ["test_r_fun"]}.get(fname, [])
    done = {}
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l); done[d["i"]] = d
    print(len(ms), "mutants", len(done), "done", flush=True)
    dirs = []
    for j in range(jobs):
        d = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
        subprocess.run(["git", "clone", "-q", "/repo", str(d / "r")]); dirs.append(d)
    free = list(dirs)
    f = open(outp, "a")

    def tests(repo, work, sel):
        x = work / "j.xml"
        if x.exists():
            x.unlink()
        cmd = [PY, "-m", "pytest", "-q", "-x" if sel else "-q", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={x}"] + sel
        try:
            subprocess.run(cmd, cwd=repo, env=dict(ENV, OMP_NUM_THREADS="1"), timeout=400, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return None
        if not x.exists():
            return None
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", str(work / "o.json"), f"junit:{x}"], stdout=subprocess.DEVNULL)
        return set(json.load(open(work / "o.json"))["passed"])

    def one(im):
        i, (line, what, s) = im
        if i in done:
            return
        work = free.pop()
        try:
            repo = work / "r"
            (repo / rel).write_text(s)
            ok = True
            for m in mods:
                p = next((q for q in pathlib.Path(repo / "test").rglob(m + "*.py")), None)
                if p:
                    got = tests(repo, work, [str(p.relative_to(repo))])
                    want = {t for t in stable if f".{m}" in t or t.startswith(m)}
                    if got is None or not want <= got:
                        ok = False
            if ok:
                got = tests(repo, work, [])
                ok = got is not None and set(stable) <= got
            f.write(json.dumps({"i": i, "file": rel, "line": line, "what": what, "survives": ok, "src": s if ok else None}) + "\n"); f.flush()
        finally:
            free.append(work)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, enumerate(ms)))
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)


def check(inp, outp, props):
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["i"] for l in open(outp)}
    d = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
    subprocess.run(["git", "clone", "-q", "/repo", str(d / "r")])
    f = open(outp, "a")
    rows = sorted((json.loads(l) for l in open(inp)), key=lambda r: r["i"])
    orig = None
    try:
        for r in rows:
            if not r["survives"] or r["i"] in done:
                continue
            p = d / "r" / r["file"]
            orig = orig or p.read_text()
            p.write_text(r["src"])
            res = None
            for c in props:
                q = subprocess.run([PY, "check.py", c], cwd=ROOT, env=dict(ENV, VERIF_REPO=str(d / "r"), VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode:
                    res = [c, q.returncode, q.stdout[:300]]
                    break
            out = {"i": r["i"], "line": r["line"], "what": r["what"], "caught": res}
            f.write(json.dumps(out) + "\n"); f.flush()
            print(r["i"], r["line"], r["what"].replace("\n", " ")[:110], "|", (f"{res[0]} exit {res[1]} " + res[2].replace("\n", " ")[:120]) if res else "SURVIVED", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == "screen":
    jobs = int(next((a[7:] for a in sys.argv if a.startswith("--jobs=")), 6))
    screen(sys.argv[2], sys.argv[3], jobs)
elif sys.argv[1] == "count":
    print(len(mutants(pathlib.Path("/repo/magpi", sys.argv[2]).read_text())))
else:
    check(sys.argv[2], sys.argv[3], sys.argv[4].split(","))
