"""C19  endogenous grid points.

Every iterate of egm is recomputed from the written equations with an independent interpolation,
on linear and nonlinear models; unconstrained linear models must solve their Euler equation
exactly, and a savings problem with a closed form must be recovered.
"""
import contextlib
import io
import itertools

import numpy as np
from scipy.interpolate import CubicSpline

from mc import kit, solved
from mc.kit import dolo, model

from dolo.algos.egm import egm
from dolo.algos.time_iteration import time_iteration
from dolo.numeric.decision_rule import CallableDecisionRule, CustomDR, DecisionRule

LO, HI = 0.1, 4.0
BOUNDS = {
    "none": None,
    "upper": ("-10", "0.8*w[t]"),
    "both": ("0.05 + 0.02*e[t]", "0.5*w[t] + 0.1"),
    "lower": ("0.3*w[t]", "inf"),
}
LIMITS = {
    "none": lambda e, s: (-np.inf, np.inf),
    "upper": lambda e, s: (-10, 0.8 * s),
    "both": lambda e, s: (0.05 + 0.02 * e, 0.5 * s + 0.1),
    "lower": lambda e, s: (0.3 * s, np.inf),
}
# name -> equations (texts) and the same written again as functions
FAMILY = {
    "linear": dict(
        gt="0.2 + 1.02*a[t-1] + 0.5*e[t] + 0.1*e[t-1]",
        h="0.1 + 0.6*x[t+1] + 0.05*w[t+1] + 0.2*e[t+1]",
        tau="0.1 + 0.7*z[t] + 0.1*a[t] - 0.1*e[t]",
        at="a[t] + x[t]",
        f_gt=lambda e, a, E: 0.2 + 1.02 * a + 0.5 * E + 0.1 * e,
        f_h=lambda E, S, X: 0.1 + 0.6 * X + 0.05 * S + 0.2 * E,
        f_tau=lambda e, a, z: 0.1 + 0.7 * z + 0.1 * a - 0.1 * e,
        f_at=lambda e, a, x: a + x,
    ),
    "savings": dict(
        gt="exp(e[t]) + 1.02*a[t-1]",
        h="0.95*1.02*(x[t+1])^(-2)",
        tau="z[t]^(-1/2)",
        at="a[t] + x[t]",
        f_gt=lambda e, a, E: np.exp(E) + 1.02 * a,
        f_h=lambda E, S, X: 0.95 * 1.02 * X**-2.0,
        f_tau=lambda e, a, z: z**-0.5,
        f_at=lambda e, a, x: a + x,
    ),
    "taste": dict(
        gt="0.3 + 0.1*e[t-1] + 1.01*a[t-1]*(1+0.1*e[t])",
        h="0.93*(1+0.1*e[t+1])*exp(-x[t+1]) + 0.01*w[t+1]",
        tau="-log(z[t]) + 0.2*e[t] + 0.02*a[t]",
        at="1.1*a[t] + 0.9*x[t] - 0.1*e[t]",
        f_gt=lambda e, a, E: 0.3 + 0.1 * e + 1.01 * a * (1 + 0.1 * E),
        f_h=lambda E, S, X: 0.93 * (1 + 0.1 * E) * np.exp(-X) + 0.01 * S,
        f_tau=lambda e, a, z: -np.log(z) + 0.2 * e + 0.02 * a,
        f_at=lambda e, a, x: 1.1 * a + 0.9 * x - 0.1 * e,
    ),
}
START = 0.5
_mem = {}


def build(family, shock, bounds, n):
    key = (family, shock, bounds, n)
    if key in _mem:
        return _mem[key]
    f = FAMILY[family]
    b = BOUNDS[bounds]
    arb = {
        "linear": "x[t] - (0.1 + 0.7*(0.1 + 0.6*x[t+1] + 0.05*w[t+1] + 0.2*e[t+1]) + 0.1*(w[t]-x[t]) - 0.1*e[t])",
        "savings": "0.95*1.02*(x[t+1]/x[t])^(-2) - 1",
        "taste": "x[t] - 1",
    }[family]
    _mem[key] = model(f"""
name: egm
symbols:
    exogenous: [e]
    states: [w]
    expectations: [z]
    poststates: [a]
    controls: [x]
    parameters: [beta]
equations:
    arbitrage: |
        {arb}{f' ⟂ {b[0]} <= x[t] <= {b[1]}' if b else ''}
    transition: |
        w[t] = {'0.2 + 1.02*(w[t-1]-x[t-1]) + 0.5*e[t] + 0.1*e[t-1]' if family == 'linear' else 'exp(e[t]) + 1.02*(w[t-1]-x[t-1])'}
    half_transition: |
        w[t] = {f['gt']}
    expectation: |
        z[t] = {f['h']}
    direct_response_egm: |
        x[t] = {f['tau']}
    reverse_state: |
        w[t] = {f['at']}
calibration:
    beta: 0.9
    e: 0.0
    w: 1.0
    x: {START}
    z: 1.0
    a: 0.5
domain:
    w: [{LO}, {HI}]
exogenous: {solved.SHOCKS[shock]}
options:
    grid: !Cartesian
        n: [{n}]
""")
    return _mem[key]


def line(xs, ys, t):
    """piecewise linear, extended by its first and last pieces"""
    out = np.empty(len(t))
    for k, v in enumerate(t):
        i = min(max(int(np.sum(xs <= v)) - 1, 0), len(xs) - 2)
        lam = (v - xs[i]) / (xs[i + 1] - xs[i])
        out[k] = ys[i] * (1 - lam) + ys[i + 1] * lam
    return out


def step(f, lim, e, E, W, a, rule):
    """one backward step: controls and states at post-states"""
    xs, ss = [], []
    for i in range(len(e)):
        z = np.zeros(len(a))
        for j in range(len(W[i])):
            S = f["f_gt"](e[i], a, E[i][j])
            z += W[i][j] * f["f_h"](E[i][j], S, rule(j, S))
        x = f["f_tau"](e[i], a, z)
        xs.append(x)
        ss.append(f["f_at"](e[i], a, x))
    return np.array(xs), np.array(ss)


def as_rule(f, lim, e, xs, ss):
    def rule(j, S):
        k = 0 if len(e) == 1 else j
        lo, hi = lim(e[k], S)
        return np.maximum(np.minimum(line(ss[k], xs[k], S), hi), lo)

    return rule


AGRIDS = {
    "even": np.linspace(0.0, 4.0, 9),
    "curved": np.linspace(0.0, 2.0, 7) ** 2,
    "two": np.array([0.05, 3.0]),
    "negative": np.linspace(-0.3, 3.5, 8),
}


def run(exp):
    kit.use_fast()
    exp.assume("models of the family of mc/checks/c19.py; Markov chain, iid and constant shocks; increasing states along post-states")
    nodes = 6

    def iterates(ch):
        """the rule after k steps"""
        family = ch.pick("family", list(FAMILY))
        shock = ch.pick("shock", list(solved.SHOCKS))
        bounds = ch.pick("bounds", list(BOUNDS))
        if family != "linear" and bounds == "none":
            bounds = "upper"
            ch.prune() if shock != "mc" else None
        grid_name = ch.pick("post-states", list(AGRIDS))
        start = ch.pick("start", ["calibrated", "function", "rule"])
        given = ch.pick("process", ["model", "given", "both"])
        verbose = ch.flag("verbose")
        m = build(family, shock, bounds, nodes)
        f, lim = FAMILY[family], LIMITS[bounds]
        a = AGRIDS[grid_name].copy()
        if family != "linear" and grid_name == "negative":
            ch.prune()
        opts = {}
        if given != "model":
            p = m.exogenous
            dp = p.discretize() if shock in ("const", "mc", "mc2") else (p.discretize(to="mc", N=3) if shock == "ar1" else p.discretize(to="iid", N=3))
            opts["dp"] = dp
            if given == "both":
                opts["grid"] = {"endo": m.discretize()[0]["endo"], "exo": dp.grid}
        else:
            dp = m.discretize()[1]
        e, E, W = solved.nodes_of(dp)
        n = len(e)
        S = np.linspace(LO, HI, nodes)
        first = lambda j, t: np.full(len(t), START)
        if start == "function":
            opts["dr0"] = lambda i, s: 0.2 + 0.3 * s
            first = lambda j, t: 0.2 + 0.3 * t
        elif start == "rule":
            g0 = m.discretize()[0]
            opts["dr0"] = DecisionRule(dp.grid, g0["endo"], "linear", dprocess=dp, values=np.array([(0.2 + 0.3 * S + 0.05 * i)[:, None] for i in range(n)]))
            first = lambda j, t: 0.2 + 0.3 * t + 0.05 * (0 if n == 1 else j)
        kmax = ch.pick("maxit", exp.q([1, 2, 3, 6], [1, 2, 3, 4, 5, 8, 12]))
        cal = m.calibration.flat if hasattr(m.calibration, "flat") else None
        a_before = a.copy()
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sol = egm(m, a_grid=a, maxit=kmax, verbose=verbose, η_tol=1e-10, **opts)
        ch.op(n=kmax)
        ch.same(buf.getvalue() == "", not verbose, "iterates:silent")
        ch.close(a, a_before, "iterates:argument", 0, "post-states")
        rule = first
        xs = ss = None
        good = True
        for k in range(kmax):
            px, ps = xs, ss
            xs, ss = step(f, lim, e, E, W, a, rule)
            if not (np.isfinite(xs).all() and (np.diff(ss, axis=1) > 1e-6).all()):
                ch.prune()
            rule = as_rule(f, lim, e, xs, ss)
        eta = abs(xs - px).max() + abs(ss - ps).max() if kmax > 2 else 1.0
        if kmax > 2:
            ch.close(sol.err, eta, "iterates:error", 1e-6)
        if not sol.a_converged:
            ch.check(sol.err >= sol.a_tol, "iterates:flag", f"{sol.err}")
        for i in range(n):
            want = rule(i, S)
            ch.close(sol.dr.eval_is(i, S[:, None])[:, 0], want, "iterates:rule", 1e-7, f"exogenous state {i} after {kmax} iterations")
            # between nodes: a spline
            t = np.linspace(LO, HI, 11)
            ch.close(sol.dr.eval_is(i, t[:, None])[:, 0], CubicSpline(S, want, bc_type="natural")(t), "iterates:between", 1e-6)
        ch.state(family, shock, bounds, grid_name, start, given, kmax)

    def solution(ch):
        """solved to convergence"""
        family = ch.pick("family", list(FAMILY))
        shock = ch.pick("shock", list(solved.SHOCKS))
        bounds = ch.pick("bounds", list(BOUNDS))
        if family != "linear" and bounds == "none":
            ch.prune()
        grid_name = ch.pick("post-states", list(AGRIDS))
        if family != "linear" and grid_name == "negative":
            ch.prune()
        details = ch.flag("details")
        tol = ch.pick("tol", exp.q([1e-7], [1e-6, 1e-9]))
        m = build(family, shock, bounds, nodes)
        f, lim = FAMILY[family], LIMITS[bounds]
        a = AGRIDS[grid_name].copy()
        dp = m.discretize()[1]
        e, E, W = solved.nodes_of(dp)
        n = len(e)
        S = np.linspace(LO, HI, nodes)
        with kit.quiet():
            res = egm(m, a_grid=a, details=details, η_tol=tol)
        dr = res.dr if details else res
        ch.check(isinstance(dr, CallableDecisionRule), "solution:details", f"{type(dr)} with details={details}")
        if not isinstance(dr, CallableDecisionRule):
            return
        # reference
        rule = lambda j, t: np.full(len(t), START)
        done = False
        for k in range(1000):
            if k:
                px, ps = xs, ss
            xs, ss = step(f, lim, e, E, W, a, rule)
            if not (np.isfinite(xs).all() and (np.diff(ss, axis=1) > 1e-6).all()):
                ch.prune()
            if k > 1 and abs(xs - px).max() + abs(ss - ps).max() < tol / 100:
                done = True
                break
            rule = as_rule(f, lim, e, xs, ss)
        if details:
            ch.op(n=res.iterations)
            if done:
                ch.check(res.a_converged and res.err < tol and res.a_tol == tol, "solution:flag", f"{res.err}, {res.a_converged}")
            ch.same(bool(res.err < res.a_tol), bool(res.a_converged), "solution:flag")
        if not done:
            return
        for i in range(n):
            x = dr.eval_is(i, S[:, None])[:, 0]
            ch.close(x, rule(i, S), "solution:rule", tol * 100, f"exogenous state {i}")
            lo, hi = lim(e[i], S)
            ch.check(((x >= lo - 1e-9) & (x <= hi + 1e-9)).all(), "solution:bounds", f"{x}")
        if family == "linear" and bounds == "none":
            # euler equation, exactly
            for i in range(n):
                x = dr.eval_is(i, S[:, None])[:, 0]
                z = 0.0
                for j in range(len(W[i])):
                    S1 = f["f_gt"](e[i], S - x, E[i][j])
                    X1 = dr.eval_ijs(i, j, S1[:, None])[:, 0]
                    z = z + W[i][j] * f["f_h"](E[i][j], S1, X1)
                ch.close(f["f_tau"](e[i], S - x, z), x, "solution:euler", tol * 100)
            if exp.thorough:
                with kit.quiet():
                    ti = time_iteration(m, verbose=False, maxit=500)
                for i in range(n):
                    ch.close(ti.dr.eval_is(i, S[:, None])[:, 0], dr.eval_is(i, S[:, None])[:, 0], "solution:time-iteration", 1e-4)
        ch.state(family, shock, bounds, grid_name)

    def closed(ch):
        """log utility without income: the consumed share is 1-beta"""
        beta = ch.pick("beta", [0.9, 0.95, 0.5])
        r = ch.pick("r", [1.0, 1.02, 1.1])
        sigma = ch.pick("sigma", [0.0, 0.3])
        gamma = ch.pick("gamma", [1.0, 2.0])
        shock = ch.pick("shock", ["iid", "mc2"])
        ex = "!UNormal\n    sigma: %s" % sigma if shock == "iid" else "!MarkovChain\n    values: [[%s],[%s]]\n    transitions: [[0.7,0.3],[0.7,0.3]]" % (-sigma, sigma)
        key = ("closed", beta, r, sigma, gamma, shock)
        if sigma == 0 and shock == "iid":
            ch.prune()
        if key not in _mem:
            _mem[key] = model(f"""
name: closed
symbols:
    exogenous: [e]
    states: [w]
    expectations: [z]
    poststates: [a]
    controls: [c]
    parameters: [beta, r, gamma]
equations:
    arbitrage: |
        beta*r*exp(e[t+1])*(c[t+1]/c[t])^(-gamma) - 1 ⟂ 0.0 <= c[t] <= w[t]
    transition: |
        w[t] = (w[t-1]-c[t-1])*r*exp(e[t])
    half_transition: |
        w[t] = a[t-1]*r*exp(e[t])
    expectation: |
        z[t] = beta*r*exp(e[t+1])*(c[t+1])^(-gamma)
    direct_response_egm: |
        c[t] = z[t]^(-1/gamma)
    reverse_state: |
        w[t] = a[t] + c[t]
calibration:
    beta: {beta}
    r: {r}
    gamma: {gamma}
    e: 0.0
    w: 1.0
    c: 0.9*w
    z: 1.0
    a: 0.1
domain:
    w: [0.5, 3.0]
exogenous: {ex}
options:
    grid: !Cartesian
        n: [5]
""")
        m = _mem[key]
        dp = m.discretize()[1]
        e, E, W = solved.nodes_of(dp)
        # share theta: w' = (1-theta) w R;  theta^-g = beta E[R^(1-g)] (theta (1-theta))^-g
        q = beta * sum(w * (r * np.exp(x)) ** (1 - gamma) for w, x in zip(W[0], E[0]))
        theta = 1 - q ** (1 / gamma)
        if not 0.05 < theta < 0.99:
            ch.prune()
        with kit.quiet():
            sol = egm(m, a_grid=np.append(1e-6, np.linspace(2.5, 10, 4)), η_tol=1e-8, maxit=5000, dr0=lambda i, s: 0.5 * s)
        ch.op(n=sol.iterations)
        S = np.linspace(0.5, 3, 5)[:, None]
        ch.check(sol.a_converged, "closed:converged", f"{sol.err}")
        for i in range(len(e)):
            ch.close(sol.dr.eval_is(i, S), theta * S, "closed:rule", 1e-5)
        ch.state(beta, r, sigma, gamma, shock)

    def refused(ch):
        case = ch.pick("case", ["no post-states", "maxit 0", "two-dimensional"])
        m = build("savings", "mc2", "upper", nodes)
        with kit.quiet():
            if case == "no post-states":
                ch.raises(lambda: egm(m), "refused:grid")
            elif case == "two-dimensional":
                ch.raises(lambda: egm(m, a_grid=np.ones((3, 1))), "refused:shape")
            else:
                sol = egm(m, a_grid=AGRIDS["even"], maxit=0)
                ch.same(bool(sol.a_converged), False, "refused:maxit")
                S = np.linspace(LO, HI, nodes)[:, None]
                ch.close(sol.dr.eval_is(0, S), np.full((nodes, 1), START), "refused:initial", 1e-10)
        ch.state(case)

    for f, s, b in itertools.product(FAMILY, solved.SHOCKS, BOUNDS):
        build(f, s, b, nodes)
    with kit.quiet():
        egm(build("savings", "mc", "upper", nodes), a_grid=AGRIDS["even"], maxit=3)
    exp.explore("iterates", iterates)
    exp.explore("solution", solution)
    exp.explore("closed", closed)
    exp.explore("refused", refused)
