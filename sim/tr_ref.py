"""Reference for one trust-region step, rebuilt from the evaluation log (float64, with error bounds)."""
from __future__ import annotations

import math

import numpy as np

from .tr_world import F32, StepView, flat_tree


class Ref:
    """What the logged evaluations say about a step from `prev` to trial point prev+p."""

    def __init__(self, cfg, svc, prev: StepView, new: StepView, data):
        o = cfg["opts"]
        db = np.asarray(data, F32).tobytes()
        self.p = flat_tree(new.state.subproblem_result.p)
        self.finite_p = bool(np.all(np.isfinite(self.p)))
        xb = prev.x.tobytes()
        with np.errstate(all="ignore"):
            trial = (prev.x + self.p).astype(F32)
        tb = trial.tobytes()
        # the trial point may differ by an ulp when it is not returned: take the nearest logged evaluation
        self.old = [e for e in svc.evals if e[0] == xb and e[1] == db]
        self.new = [e for e in svc.evals if e[0] == tb and e[1] == db]
        if not self.new and self.finite_p:
            tol = 4 * F32.eps * (np.abs(prev.x) + np.abs(self.p)) + 1e-30
            self.new = [e for e in svc.evals if e[1] == db and np.all(np.abs(np.frombuffer(e[0], F32) - trial) <= tol)]
        self.trial = trial
        self.rhos = []   # candidate (lo, hi) intervals of the reduction ratio
        self.unknown = False
        self.value_nan = bool(self.new) and all(math.isnan(e[2]) for e in self.new)
        self.value_any_nan = any(math.isnan(e[2]) for e in self.new)
        self._ratio(cfg, svc, prev, o)

    def _ratio(self, cfg, svc, prev, o):
        if not self.finite_p:
            self.unknown = True
            return
        if not self.old or not self.new:
            self.unknown = True
            return
        p = self.p.astype(float)
        x = prev.x.astype(float)
        n = len(p)
        vo = {float(e[2]) for e in self.old}
        vn = {float(e[2]) for e in self.new}
        gs = {e[3].tobytes(): e[3].astype(float) for e in self.old}
        hps = []
        if o.get("approx_hvp"):
            h = float(o["fd_h"])
            pt = x + h * p
            tol = 8 * F32.eps * (np.abs(x) + np.abs(h * p)) + 1e-30
            c = [e for e in svc.evals if np.all(np.abs(np.frombuffer(e[0], F32) - pt) <= tol)]
            for g in gs.values():
                for e in c:
                    g1 = e[3].astype(float)
                    with np.errstate(all="ignore"):
                        hp = (g1 - g) / h
                        err = 4 * F32.eps * (np.abs(g) + np.abs(g1)) / h
                    hps.append((hp, err, g))
        else:
            c = [q for q in svc.hvps if np.array_equal(q[0], prev.x) and np.array_equal(q[1], self.p)]
            if not c:
                c = [q for q in svc.hvps if np.array_equal(q[0], prev.x) and np.allclose(q[1], self.p, rtol=1e-5, atol=0)]
            for g in gs.values():
                for q in c:
                    hps.append((q[2].astype(float), 4 * F32.eps * np.abs(q[2].astype(float)), g))
        if not hps:
            self.unknown = True
            return
        lam = o.get("damping_factor") or 0.0
        with np.errstate(all="ignore"):
            for f0 in vo:
                for f1 in vn:
                    nom = f0 - f1
                    for hp, err, g in hps:
                        for damp in ((0.0,) if not lam else (0.0, lam)):
                            gp = g * p
                            php = p * hp + damp * p * p
                            den = -(gp.sum() + 0.5 * php.sum())
                            derr = (8 + n) * F32.eps * (np.abs(gp).sum() + np.abs(php).sum()) + 0.5 * float(np.abs(p) @ err) + 1e-37
                            nerr = 4 * F32.eps * abs(nom) + 1e-37
                            self.rhos.append(self.interval(nom, nerr, den, derr))
        if any(r is None for r in self.rhos):
            self.unknown = True

    @staticmethod
    def interval(nom, nerr, den, derr):
        if math.isnan(den):
            return ("nan",)
        if math.isinf(den) or not abs(den) > 2 * derr:
            return None                     # denominator is rounding noise: anything may come out
        if den < 0:
            return ("num", -math.inf, -math.inf)    # the model predicts an increase: not a reduction at all
        if math.isnan(nom):
            return ("nan",)
        if math.isinf(nom):
            s = math.copysign(math.inf, nom) * (1 if den > 0 else -1)
            return ("num", s, s)
        c = [a / b for a in (nom - nerr, nom + nerr) for b in (den - derr, den + derr)]
        return ("num", min(c), max(c))

    def decide(self, cmp):
        """Verdict of a comparison on rho: True / False / None (cannot tell). cmp maps interval -> True/False/None"""
        if self.unknown:
            return None
        out = set()
        for r in self.rhos:
            out.add(False if r[0] == "nan" else cmp(r[1], r[2]))
        return out.pop() if len(out) == 1 else None

    def ge(self, t):
        return self.decide(lambda lo, hi: True if lo >= _up(t) else (False if hi < _dn(t) else None))

    def lt(self, t):
        return self.decide(lambda lo, hi: True if hi < _dn(t) else (False if lo >= _up(t) else None))

    def gt(self, t):
        return self.decide(lambda lo, hi: True if lo > _up(t) else (False if hi <= _dn(t) else None))

    def contains(self, rho):
        """Is the reported ratio compatible with the log?  None if nothing can be said."""
        if self.unknown:
            return None
        for r in self.rhos:
            if r[0] == "nan":
                if math.isnan(rho) or rho == -math.inf:
                    return True
            else:
                s = 1e-4 * max(abs(r[1]), abs(r[2])) + 1e-6 if math.isfinite(r[1]) else 0.0
                if r[1] - s <= rho <= r[2] + s:
                    return True
        return False


def _up(t):
    return t + 1e-5 * abs(t)


def _dn(t):
    return t - 1e-5 * abs(t)
