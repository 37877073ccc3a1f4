"""C21  steady states and residuals.

Residuals of all models and calibrations of stated menus against the equations written again as
functions; steady states against exact solutions of linear models and independently computed
residuals of nonlinear ones, including models which have none.
"""
import itertools
import re
import warnings

import numpy as np

from mc import kit
from mc.checks import c20
from mc.kit import dolo, model

from dolo.algos.steady_state import find_steady_state, residuals
from dolo.algos.simulations import simulate

DIMS = [(1, 1), (2, 1), (1, 2), (2, 2)]


def names_of(dims, n_e):
    return (["k", "z"][: dims[0]], ["i", "n"][: dims[1]], ["e", "f"][:n_e])


def expected(names, nonlinear, d):
    st, co, ex = names
    t = [c20.value(x, names, nonlinear, d, d, d) - d[x] for x in st]
    a = [d[x] - c20.value(x, names, nonlinear, d, d, d) for x in co]
    return np.array(t), np.array(a)


def run(exp):
    kit.use_fast()
    exp.assume("models of the family of mc/checks/c20.py")
    VALUES = {"e": [0.05, -0.3], "f": [-0.1, 0.2], "k": [0.4, 1.3], "z": [0.1, -0.6], "i": [0.2, -0.4], "n": [0.1, 0.9]}

    def resid(ch):
        """residuals at any point"""
        dims = ch.pick("dims", DIMS)
        n_e = ch.pick("shocks", [1, 2])
        nonlinear = ch.flag("nonlinear")
        bounds = ch.pick("bounds", ["none", "binding"] if n_e == 1 else ["none"])
        defs = ch.flag("definitions") if bounds == "none" else False
        how = ch.pick("how", ["calibration", "dict", "method", "shown", "html"])
        names = names_of(dims, n_e)
        st, co, ex = names
        d = {v: ch.pick(v, VALUES[v]) for v in st + co + ex}
        m = c20.build(dims, n_e, nonlinear, bounds, defs)
        before = dict(m.calibration.flat)
        t, a = expected(names, nonlinear, d)
        if how == "dict":
            c = dict(exogenous=np.array([d[v] for v in ex]), states=np.array([d[v] for v in st]), controls=np.array([d[v] for v in co]), parameters=m.calibration["parameters"])
            r = residuals(m, c)
            r2 = m.residuals(c)
            ch.close(r2["arbitrage"], a, "resid:method", 1e-12)
            ch.same(dict(m.calibration.flat), before, "resid:model")
        else:
            m.set_calibration(**d)
            try:
                if how == "calibration":
                    r = residuals(m)
                    r2 = residuals(m, m.calibration)
                    ch.close(r2["transition"], t, "resid:given", 1e-12)
                elif how == "method":
                    r = m.residuals()
                elif how == "shown":
                    txt = re.sub("\x1b\\[[0-9;]*m", "", str(m))
                    r = {}
                    for g in ["transition", "arbitrage"]:
                        block = txt.split(f"\n{g}\n")[1].split("\n\n")[0].splitlines()
                        r[g] = np.array([float(line.split(":")[1]) for line in block])
                else:
                    r = {}
                    txt = m._repr_html_()
                    cells = re.findall("<tr><td>(.*?)</td><td>(.*?)</td><td>(.*?)</td></tr>", txt)
                    group = None
                    for h, eq, v in cells:
                        group = h or group
                        v = re.sub("<.*?>", "", v)
                        if v and group in ("transition", "arbitrage"):
                            r.setdefault(group, []).append(float(v))
            finally:
                m.set_calibration(**{v: c20.CAL[v] for v in st + co + ex})
        ch.op()
        tol = 1e-12 if how not in ("shown", "html") else 6e-5 if how == "shown" else 6e-4
        ch.close(r["transition"], t, "resid:transition", tol)
        ch.close(r["arbitrage"], a, "resid:arbitrage", tol)
        ch.state(dims, n_e, nonlinear, bounds, defs, sorted(d.items()))

    def steady(ch):
        """steady states"""
        dims = ch.pick("dims", DIMS)
        n_e = ch.pick("shocks", [1, 2])
        nonlinear = ch.flag("nonlinear")
        names = names_of(dims, n_e)
        st, co, ex = names
        given = ch.flag("given")
        mm = [ch.pick("m_" + v, exp.q([-0.3, 0.0, 0.25], [-0.6, -0.3, 0.0, 0.1, 0.4])) for v in ex] if given else [c20.CAL[v] for v in ex]
        cal = {v: ch.pick("start_" + v, [c20.CAL[v], c20.CAL[v] + 0.8]) for v in st + co}
        m = c20.build(dims, n_e, nonlinear, "none", False)
        m.set_calibration(**cal)
        try:
            before = dict(m.calibration.flat)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                arg = np.array(mm)
                c = find_steady_state(m, m=arg) if given else find_steady_state(m)
            ch.close(arg, mm, "steady:argument", 0)
            ch.same(dict(m.calibration.flat), before, "steady:model")
            ch.op()
            ch.close(c["exogenous"], mm, "steady:exogenous", 0)
            ch.close(c["parameters"], m.calibration["parameters"], "steady:parameters", 0)
            ch.same(sorted(c.flat), sorted(st + co + ex + ["beta"]), "steady:names")
            d = {v: c[v] for v in st + co + ex}
            ch.close([d[v] for v in st], c["states"], "steady:states", 0)
            ch.close([d[v] for v in co], c["controls"], "steady:controls", 0)
            failed = len(w) > 0
            if not failed:
                t, a = expected(names, nonlinear, d)
                ch.close(np.concatenate([t, a]), 0 * np.concatenate([t, a]), "steady:residuals", 1e-6)
                # ... and by the library
                r = residuals(m, c)
                ch.close(np.concatenate([r["transition"], r["arbitrage"]]), 0 * np.concatenate([t, a]), "steady:residuals", 1e-6)
            else:
                ch.check(nonlinear, "steady:found", str(w[0].message))
            if not nonlinear:
                v = st + co
                A, b = np.eye(len(v)), np.zeros(len(v))
                for r_, x in enumerate(v):
                    for k, cf in c20.terms(x, *names).items():
                        if k == "1":
                            b[r_] += cf
                        elif k[0] in ex:
                            b[r_] += cf * mm[ex.index(k[0])]
                        else:
                            A[r_, v.index(k[0])] -= cf
                ch.close([d[x] for x in v], np.linalg.solve(A, b), "steady:linear", 1e-6)
        finally:
            m.set_calibration(**{v: c20.CAL[v] for v in st + co})
        ch.state(dims, n_e, nonlinear, mm, sorted(cal.items()))

    HARD = {
        "none": ("k[t-1] + 1 + 0*i[t-1]", "i[t] - 0.5*k[t]", lambda k, i: (k + 1 - k, i - 0.5 * k)),
        "no root": ("k[t-1]^2 + 1 + 0*i[t-1]", "i[t] - 0.5*k[t]", lambda k, i: (k * k + 1 - k, i - 0.5 * k)),
        "steep": ("0.5*k[t-1]^3 + 0.1 + 0.1*i[t-1]", "i[t]^3 - k[t]", lambda k, i: (0.5 * k**3 + 0.1 + 0.1 * i - k, i**3 - k)),
        "exponential": ("exp(k[t-1]) - 2 + 0.1*i[t-1]", "exp(i[t]) - 1 - 0.3*k[t]", lambda k, i: (np.exp(k) - 2 + 0.1 * i - k, np.exp(i) - 1 - 0.3 * k)),
        "flat": ("k[t-1]^3*0.001 + k[t-1] - 0.0001 + 0*i[t-1]", "i[t] - k[t]", lambda k, i: (k**3 * 0.001 - 0.0001, i - k)),
    }

    def hard(case, k, i):
        tra, arb, f = HARD[case]
        return model(f"""
name: hard
symbols:
    exogenous: [e]
    states: [k]
    controls: [i]
    parameters: [beta]
equations:
    arbitrage: |
        {arb}
    transition: |
        k[t] = {tra} + 0*e[t]
calibration: {{beta: 0.9, e: 0.0, k: {k}, i: {i}}}
domain:
    k: [-1, 2]
exogenous: !UNormal
    sigma: 0.1
""")

    def failing(ch):
        """a steady state which does not solve the equations is not returned silently"""
        case = ch.pick("case", list(HARD))
        k = ch.pick("k", [-3.0, -0.5, 0.0, 0.1, 0.7, 5.0])
        i = ch.pick("i", [-2.0, 0.0, 0.5, 4.0])
        m = hard(case, k, i)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                c = find_steady_state(m)
            except Exception:
                c = None
        ch.op()
        if c is not None:
            r = HARD[case][2](c["k"], c["i"])
            if not w:
                ch.check(max(abs(np.array(r))) < 1e-6, "failing:silent", f"residuals {r}")
            if case == "none" or case == "no root":
                ch.check(len(w) > 0, "failing:none", f"found {c.flat}")
        r = residuals(m)
        want = HARD[case][2](k, i)
        ch.close([r["transition"][0], r["arbitrage"][0]], want, "failing:residuals", 1e-12)
        ch.state(case, k, i)

    for d, e, nl, b, df in itertools.product(DIMS, [1, 2], [False, True], ["none", "binding"], [False, True]):
        if b == "binding" and (df or e == 2):
            continue
        c20.build(d, e, nl, b, df)
    exp.explore("resid", resid)
    exp.explore("steady", steady)
    exp.explore("failing", failing)
