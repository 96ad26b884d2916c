"""Plant the bugs described in tools/bugs.py one at a time in a scratch copy of /repo, verify them and write seeded/<id>/.

usage: seed_bugs.py [--no-check | --check-only] [--from=id] [id ...]
For each bug: the patch applies to HEAD, the stable tests pass with it, the demonstration passes without and fails with it;
then the check of its property is run against the scratch copy (VERIF_REPO) and the outcome printed.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, textwrap

ROOT = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
sys.path.insert(0, str(ROOT / "tools"))
from bugs import BUGS  # noqa: E402

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
ENV.pop("PYTHONPATH", None)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec timeout 150 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport jax, jax.numpy as jnp, numpy as np\nimport magpi\nassert os.path.realpath(magpi.__file__).startswith(os.path.realpath(os.getcwd())), magpi.__file__\n"


def sh(cmd, cwd, timeout=900, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))


def self_check(b, repo):
    for prop in [b["property"]] + b.get("also", []):
        c = sh([PY, "check.py", prop], ROOT, env=dict(ENV, VERIF_REPO=str(repo), VERIF_SEED="1"))
        line = [l for l in c.stdout.split("\n") if l.strip()]
        print("   check", prop, "exit", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED", "|", line[0][:230] if line else "", flush=True)
        for l in line[1:]:
            if "DID NOT" in l:
                print("      ", l)


def main():
    args = sys.argv[1:]
    nocheck = "--no-check" in args
    only = "--check-only" in args
    ids = [a for a in args if not a.startswith("--")]
    start = next((a[7:] for a in args if a.startswith("--from=")), None)
    for b in BUGS:
        if start and b["id"] != start:
            continue
        start = None
        if ids and b["id"] not in ids:
            continue
        work = pathlib.Path(tempfile.mkdtemp(prefix="bug-"))
        repo = work / "repo"
        try:
            sh(["git", "clone", "-q", "/repo", str(repo)], "/")
            for f, old, new in b["edits"]:
                p = repo / f
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                p.write_text(s.replace(old, new))
            d = sh(["git", "diff"], repo).stdout
            assert d.strip()
            out = ROOT / "seeded" / b["id"]
            if only:
                if not out.exists():
                    continue
                print(b["id"], b["property"], flush=True)
                self_check(b, repo)
                continue
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(d)
            (out / "demo.py").write_text(HEAD + textwrap.dedent(b["demo"]).lstrip())
            (out / "demo.sh").write_text(DEMO_SH)
            (out / "demo.sh").chmod(0o755)
            (out / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            good = sh(["bash", str(out / "demo.sh")], "/repo")
            bad = sh(["bash", str(out / "demo.sh")], repo)
            t = sh(f"timeout 240 {PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={work}/j.xml; /usr/bin/python3 /opt/vp/results.py {work}/o.json junit:{work}/j.xml", repo)
            passed = set(json.load(open(work / "o.json"))["passed"])
            lost = sorted(stable - passed)
            ok = good.returncode == 0 and bad.returncode != 0 and not lost
            print(b["id"], b["property"], "VALID" if ok else "INVALID", "demo", good.returncode, bad.returncode, "lost tests", lost[:4], flush=True)
            if good.returncode:
                print(good.stdout[-1500:])
            if not ok:
                if bad.returncode == 0:
                    print(bad.stdout[-500:])
                shutil.rmtree(out)
                continue
            if not nocheck:
                self_check(b, repo)
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
