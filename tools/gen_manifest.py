"""Writes /verif/MANIFEST.json from the scenarios' own descriptions."""
import json, pathlib, sys

ROOT = pathlib.Path(__file__).resolve().parents[1]
NOTE = {
 "C01": "every state returned is attributed to logged evaluations of the objective; sampled plans, float32 and float64, CPU back end of XLA; trusts jax.value_and_grad and pure_callback",
 "C02": "acceptance decisions recomputed from the logged evaluations; borderline ratios (within rounding of the threshold) are not judged",
 "C03": "reference state machine in float64 driven by the logged evaluations; borderline ratios are not judged",
 "C04": "trajectories compared with the uninterrupted execution of the same plan; bitwise within one execution mode, to rounding between modes, borderline decisions not judged",
 "C05": "delivery history of the real io_callback compared with returned steps",
 "C06": "bounded liveness: step bounds with a large safety factor on convex objectives",
 "C07": "row identities tagged into every array of the data tree",
 "C08": "streams compared with a solo replay; keys compared as raw words",
 "C09": "each returned sample attributed to a logged proposal; boundary draws by replacing jax.random.uniform with a key-dependent extreme version",
 "C10": "liveness bound with failure chance 1e-12 per run; martingale and chi-square statistics with thresholds of 7.5-8 standard deviations, so false alarms are negligible",
 "C11": "tolerance 3e-5 (float32) / 1e-9 (float64) of the trajectory's scale; stable dynamics",
 "C12": "each step compared with a float64 reference step from the library's own previous state; disturbance windows are kept off the evaluation times by a rounding margin",
 "C13": "context switches happen where the library calls user code, not at arbitrary bytecodes; reference is the same call alone on a freshly loaded copy of the library",
 "C14": "tolerance 5e-5 of the entry's scale; catalogue of functions, 3 variants each",
 "C15": "bitwise comparison between calls and processes on the same machine",
 "C16": "float64 reference for model values; tolerances for float32 rounding in the solver",
}
NA = {
 "N01": "derivatives of a pure function at a point: no schedule, time, fault, retained state or second party is involved, so a simulator has nothing to decide; needs symbolic or numerical comparison over inputs",
 "N02": "quadrature weights and nodes are pure functions of the grid; exactness is an algebraic identity over inputs, not over histories or faults",
 "N03": "the sign of a composed distance function is a pure function of the point; no interaction to simulate (shared and interleaved use of geometries is covered by C13, corrupted points by C14)",
 "N04": "geometry of a transformation is a pure function of the sample; uniformity is a change-of-variables identity (batch faults are covered by C14)",
 "N05": "algebraic identities of pure functions",
 "N06": "pointwise identity of a pure combinator at boundary points (sharing and batch faults are covered by C13 and C14)",
 "N07": "pure function of grid, degree and point (batch faults are covered by C14)",
 "N08": "convergence of a pure quadrature-based approximation; no interaction to simulate",
 "N09": "equality of two derivatives of a pure function; no interaction to simulate",
}
checks = []
for i in range(1, 17):
    pid = f"C{i:02d}"
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code, history oracles, minimised replay files",
        "level": "exploration",
        "level_note": "seeded sample of runs, no exhaustiveness; " + NOTE[pid],
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from sim import env; env.load_magpi(); print('ok')\"",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: user functions, keys and callbacks are the seams. Replay a violation with: /opt/venv/bin/python check.py --replay FILE",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
