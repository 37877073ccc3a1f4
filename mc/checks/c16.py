"""C16  time iteration.

All models of a linear family with a closed form, and all iterates of nonlinear models with
occasionally binding bounds: every iterate must be one exact backward step from the previous
one, recomputed from the written equations with an independent interpolation.
"""
import itertools

import numpy as np
from scipy.interpolate import CubicSpline

from mc import kit, solved
from mc.kit import dolo, model

from dolo.algos.results import AlgoResult
from dolo.algos.time_iteration import time_iteration
from dolo.numeric.decision_rule import CallableDecisionRule, ConstantDecisionRule, CustomDR, DecisionRule

# nonlinear family, one or two controls; bounds that depend on states
EQ = {
    "i": "i[t] - (0.2 + 0.3*e[t] + 0.5*i[t+1]*(1-0.2*k[t+1]) - 0.2*k[t]^2 + 0.1*e[t+1]*i[t])",
    "n": "n[t]^3 + n[t] - (0.4*n[t+1] + 0.3*i[t] + 0.2*z[t+1] - 0.1*k[t]*e[t])",
}
BOUNDS = {
    "none": {},
    "i": {"i": ("0.1*k[t]", "0.25 + 0.1*e[t]")},
    "i-lower": {"i": ("0.05 + e[t]/5", "inf")},
    "n": {"n": ("-inf", "0.2*k[t]")},
    "both": {"i": ("0.05", "0.3"), "n": ("-0.05 + 0.1*z[t]", "0.3")},
}
_mem = {}


def build(shock, states, controls, bounds):
    key = (shock, states, controls, bounds)
    if key in _mem:
        return _mem[key]
    tra = {"k": "k[t] = 0.7*k[t-1] + 0.5*i[t-1] + 0.2*e[t] + 0.1*e[t-1]*k[t-1]", "z": "z[t] = 0.6*z[t-1] + 0.3*e[t] + 0.1*k[t-1]"}
    arb = []
    for c in controls:
        eq = EQ[c] if "z" in states else EQ[c].replace("z[t+1]", "k[t+1]")
        b = BOUNDS[bounds].get(c)
        if b:
            b = [t if "z" in states else t.replace("z[t]", "k[t]") for t in b]
            eq += f" ⟂ {b[0]} <= {c}[t] <= {b[1]}"
        arb.append(eq)
    nl = "\n        "
    dom = {"k": "k: [0.0, 2.0]", "z": "z: [-1.0, 1.5]"}
    il = "\n    "
    n = [5 if s == "k" else 3 for s in states]
    _mem[key] = model(f"""
name: nonlinear
symbols:
    exogenous: [e]
    states: [{', '.join(states)}]
    controls: [{', '.join(controls)}]
    parameters: [beta]
equations:
    arbitrage: |
        {nl.join(arb)}
    transition: |
        {nl.join(tra[s] for s in states)}
calibration:
    beta: 0.9
    e: 0.0
    k: 0.5
    z: 0.1
    i: 0.2
    n: 0.1
domain:
    {il.join(dom[s] for s in states)}
exogenous: {solved.SHOCKS[shock]}
options:
    grid: !Cartesian
        n: {n}
""")
    return _mem[key]


def arbitrage(states, controls, bounds, e, S, X, E, S1, X1):
    d, d1 = dict(zip(states, S.T)), dict(zip(states, S1.T))
    x, x1 = dict(zip(controls, X.T)), dict(zip(controls, X1.T))
    out = []
    for c in controls:
        if c == "i":
            out.append(x["i"] - (0.2 + 0.3 * e + 0.5 * x1["i"] * (1 - 0.2 * d1["k"]) - 0.2 * d["k"] ** 2 + 0.1 * E * x["i"]))
        else:
            z1 = d1["z"] if "z" in states else d1["k"]
            out.append(x["n"] ** 3 + x["n"] - (0.4 * x1["n"] + 0.3 * x["i"] + 0.2 * z1 - 0.1 * d["k"] * e))
    return np.column_stack(out)


def transition(states, controls, e, S, X, E):
    d, x = dict(zip(states, S.T)), dict(zip(controls, X.T))
    o = {"k": 0.7 * d["k"] + 0.5 * x["i"] + 0.2 * E + 0.1 * e * d["k"]}
    if "z" in states:
        o["z"] = 0.6 * d["z"] + 0.3 * E + 0.1 * d["k"]
    return np.column_stack([o[s] for s in states])


def limits(states, controls, bounds, e, S):
    d = dict(zip(states, S.T))
    z = d.get("z", d["k"])
    o = np.ones(len(S))
    L = {c: (-np.inf * o, np.inf * o) for c in controls}
    if bounds == "i":
        L["i"] = (0.1 * d["k"], (0.25 + 0.1 * e) * o)
    elif bounds == "i-lower":
        L["i"] = ((0.05 + e / 5) * o, np.inf * o)
    elif bounds == "n":
        L["n"] = (-np.inf * o, 0.2 * d["k"])
    elif bounds == "both":
        L["i"] = (0.05 * o, 0.3 * o)
        L["n"] = (-0.05 + 0.1 * z, 0.3 * o)
    return np.column_stack([L[c][0] for c in controls]), np.column_stack([L[c][1] for c in controls])


def axes(m):
    g = m.endo_grid
    return [np.linspace(a, b, k) for a, b, k in zip(g.min, g.max, g.n)]


def weights(method, a, x):
    """weights of the nodes of an axis for points x"""
    if method == "cubic":
        assert x.min() > a[0] - 1e-12 and x.max() < a[-1] + 1e-12, "outside of the grid"
        return CubicSpline(a, np.eye(len(a)), bc_type="natural")(x)
    i = np.clip(np.searchsorted(a, x, side="right") - 1, 0, len(a) - 2)
    t = (x - a[i]) / (a[i + 1] - a[i])
    W = np.zeros((len(x), len(a)))
    W[np.arange(len(x)), i] = 1 - t
    W[np.arange(len(x)), i + 1] += t
    return W


def many(method, ax, V, pts):
    """interpolation of nodal values at points, linear beyond the borders"""
    W = [weights(method, a, pts[:, k]) for k, a in enumerate(ax)]
    if len(ax) == 1:
        return np.einsum("pi,ix->px", W[0], V)
    return np.einsum("pi,pj,ijx->px", W[0], W[1], V)


def step_check(ch, tag, states, controls, bounds, dp, ax, method, old, new, tol):
    """new (values by exogenous state) is one backward step from old"""
    S = np.array(list(itertools.product(*ax)))
    e, E, W = solved.nodes_of(dp)
    iid = dp.n_nodes == 1
    for i in range(len(e)):
        res = np.zeros_like(new[i])
        for j in range(len(E[i])):
            S1 = transition(states, controls, e[i], S, new[i], E[i][j])
            V = old[0 if iid else j].reshape([len(a) for a in ax] + [len(controls)])
            X1 = many(method, ax, V, S1)
            res += W[i][j] * arbitrage(states, controls, bounds, e[i], S, new[i], E[i][j], S1, X1)
        lb, ub = limits(states, controls, bounds, e[i], S)
        x = new[i]
        ch.check((x > lb - tol).all() and (x < ub + tol).all(), f"{tag}:bounds", f"{x} not in {lb}, {ub}")
        # mid(x-ub, f, x-lb) = 0
        mid = np.maximum(np.minimum(res, x - lb), x - ub)
        ch.close(mid, np.zeros_like(mid), f"{tag}:equations", tol, f"exogenous state {i}")


def values(dr, n, S):
    return [dr.eval_is(i, S).copy() for i in range(n)]


def run(exp):
    kit.use_fast()
    exp.assume("models of the families of mc/solved.py and mc/checks/c16.py, up to two states and two controls")

    def dprocess(m, shock, kind):
        if kind == "default":
            return None, m.exogenous.discretize()
        dp = {"n5": lambda: m.exogenous.discretize(N=5), "gdp": lambda: m.exogenous.discretize(to="gdp"), "to mc": lambda: m.exogenous.discretize(to="mc"),
              "quad": lambda: m.exogenous.discretize(to="iid", N=3)}[kind]()
        return dp, dp

    def linear(ch):
        shock = ch.pick("shock", list(solved.SHOCKS))
        n_s, n_x = ch.pick("dims", exp.q([(1, 2), (2, 1)], solved.DIMS))
        scale = ch.pick("discount", exp.q([1.0, 0.0], [1.0, 0.5, 0.0]))
        interp_method = ch.pick("interp", ["linear", "cubic"])
        kind = ch.pick("dprocess", {"ar1": ["default", "n5", "gdp"], "iid": ["default", "quad"], "mc": ["default", "gdp"], "mc2": ["default"], "const": ["default"]}[shock])
        sizes = ch.pick("sizes", exp.q([(3, 2)], [(4, 5), (3, 2)]))
        if interp_method == "cubic" and min(sizes[:n_s]) < 3:
            sizes = (3, 4)
        b = ch.pick("bounds", exp.q(["absent", "wide", "binding", "ignored"], ["absent", "infinite", "wide", "binding", "ignored"]))
        if (b == "binding" and scale != 0.0) or (scale == 0.0 and b == "wide"):
            ch.prune()
        text = {"absent": None, "infinite": [("-inf", "inf")] * n_x, "wide": [("-50", "50")] * n_x}.get(b, [("-0.2", "0.3"), ("-0.1", "0.25")][:n_x])
        m = solved.linear(shock, n_s, n_x, scale, text, sizes)
        given, dp = dprocess(m, shock, kind)
        opts = {} if given is None else {"dprocess": given}
        if b == "ignored":
            opts["ignore_constraints"] = True
        before = str(m.calibration)
        sol = time_iteration(m, verbose=False, interp_method=interp_method, tol=1e-9, **opts)
        ch.op(n=sol.iterations)
        mode = "iid" if shock in ("iid", "const") else ("gdp" if kind == "gdp" and shock == "ar1" else "mc")
        K, alpha = solved.linear_rule(n_s, n_x, dp, mode, scale)
        ax = axes(m)
        S = np.array(list(itertools.product(*ax)))
        ch.check(sol.x_converged and sol.err < 1e-9, "linear:converged", f"{sol.err}")
        ch.same(sol.complementarities, b not in ("absent", "ignored"), "linear:complementarities")
        for i in range(len(alpha)):
            want = S @ K.T + alpha[i][None, :]
            if b == "binding":
                want = np.clip(want, [-0.2, -0.1][:n_x], [0.3, 0.25][:n_x])
                # with a = 0 the second control does not depend on the first
            ch.close(sol.dr.eval_is(i, S), want, "linear:rule", 1e-4, f"exogenous state {i}")
        if mode == "iid":
            ch.check(len(alpha) == 1, "linear:nodes", "")
        ch.same(str(m.calibration), before, "linear:model")
        ch.state(shock, n_s, n_x, scale, interp_method, kind, sizes, b)

    def steps(ch):
        shock = ch.pick("shock", ["mc", "iid", "const"])
        states, controls = ch.pick("variables", [(("k",), ("i",)), (("k", "z"), ("i", "n")), (("z", "k"), ("n", "i")), (("z", "k"), ("i",))])
        bounds = ch.pick("bounds", [b for b in BOUNDS if set(BOUNDS[b]) <= set(controls)])
        method = ch.pick("interp", ["linear", "cubic"])
        ignore = ch.flag("ignore_constraints") if bounds != "none" else False
        start = ch.pick("start", exp.q(["default", "function", "rule"], ["default", "constant", "function", "rule"]))
        m = build(shock, states, controls, bounds)
        opts = {"verbose": False, "interp_method": method, "ignore_constraints": ignore}
        dp = m.exogenous.discretize() if shock != "iid" else m.exogenous.discretize(to="iid", N=3)
        opts["dprocess"] = dp
        ax = axes(m)
        S = np.array(list(itertools.product(*ax)))
        calls = []
        x0 = np.array([0.15 if c == "i" else 0.05 for c in controls])
        first = np.array([m.calibration[c] for c in controls]) if start == "default" else x0
        if start == "constant":
            opts["dr0"] = ConstantDecisionRule(x0)
        elif start == "function":
            opts["dr0"] = lambda e, s: np.tile(x0, (s.shape[0], 1)) if not isinstance(e, (int, np.integer)) else 1 / 0
        elif start == "rule":
            opts["dr0"] = DecisionRule(dp.grid, m.endo_grid, "linear", dprocess=dp, values=np.tile(x0, (max(dp.n_nodes, 1), len(S), 1)))
        try:
            sol = time_iteration(m, maxit=4, tol=1e-12, trace=True, inner_maxit=30, hook=lambda: calls.append(1), **opts)
        except AssertionError:
            raise
        ch.op(n=4)
        n = dp.n_nodes
        ch.same(len(sol.trace), sol.iterations + 1, "steps:trace")
        ch.same(len(calls), sol.iterations, "steps:hook")
        ch.check(sol.iterations == 4 or sol.err < 1e-12, "steps:iterations", f"{sol.iterations}")
        path = [values(t["dr"], n, S) for t in sol.trace]
        for i in range(n):
            ch.close(path[0][i], np.tile(first, (len(S), 1)), "steps:start", 1e-12)
            ch.close(sol.dr.eval_is(i, S), path[-1][i], "steps:last", 0)
        eff = "none" if ignore else bounds
        for a, b in zip(path[:-1], path[1:]):
            step_check(ch, "steps", states, controls, eff, dp, ax, method, a, b, 2e-6)
            for v in b:
                ch.state(v)
        change = max(abs(u - v).max() for u, v in zip(path[-1], path[-2]))
        ch.close(sol.err, change, "steps:error", 1e-12)
        ch.same(bool(sol.x_converged), bool(change < 1e-12), "steps:converged")
        # the same without details, and from an intermediate iterate
        del opts["verbose"]
        how = ch.pick("options", exp.q([(False, "rule"), ("full", "result")], [(False, "rule"), (True, "result"), ("full", "result"), ("full", "rule")]))
        with kit.quiet():
            dr = time_iteration(m, maxit=4, tol=1e-12, inner_maxit=30, details=False, verbose=how[0], **opts)
        for i in range(n):
            ch.close(dr.eval_is(i, S), path[-1][i], "steps:details", 1e-12)
        resume = how[1]
        res = AlgoResult()
        res.dr = sol.trace[1]["dr"]
        opts["dr0"] = res if resume == "result" else sol.trace[1]["dr"]
        sol2 = time_iteration(m, maxit=max(sol.iterations - 1, 1), tol=1e-12, inner_maxit=30, verbose=False, **opts)
        for i in range(n):
            ch.close(sol2.dr.eval_is(i, S), path[-1][i], "steps:resume", 1e-6)
        ch.same(sol2.trace, None, "steps:no-trace")
        ch.op(n=7)

    def fixed(ch):
        """converged solutions satisfy the equations, and are found again from themselves"""
        shock = ch.pick("shock", ["mc", "ar1", "iid", "mc2"])
        states, controls = ch.pick("variables", [(("k",), ("i",)), (("k", "z"), ("i", "n")), (("z", "k"), ("n", "i"))])
        bounds = ch.pick("bounds", [b for b in BOUNDS if set(BOUNDS[b]) <= set(controls)])
        method = ch.pick("interp", ["linear", "cubic"])
        tol = ch.pick("tol", exp.q([1e-7], [1e-8, 1e-4]))
        m = build(shock, states, controls, bounds)
        dp = m.exogenous.discretize()
        sol = time_iteration(m, verbose=False, interp_method=method, tol=tol)
        ch.op(n=sol.iterations)
        ch.check(sol.x_converged and sol.err < tol, "fixed:converged", f"{sol.err}")
        ax = axes(m)
        S = np.array(list(itertools.product(*ax)))
        V = values(sol.dr, dp.n_nodes, S)
        step_check(ch, "fixed", states, controls, bounds, dp, ax, method, V, V, 2e-6 + 5 * tol)
        again = time_iteration(m, verbose=False, interp_method=method, tol=tol, dr0=sol)
        ch.op(n=again.iterations)
        ch.check(again.iterations <= 2, "fixed:again", f"{again.iterations}")
        ch.close(np.array(values(again.dr, dp.n_nodes, S)), np.array(V), "fixed:again", 2e-6 + 5 * tol)
        short = time_iteration(m, verbose=False, interp_method=method, tol=1e-14, maxit=2)
        ch.check(not short.x_converged and short.iterations == 2, "fixed:maxit", f"{short.x_converged} {short.iterations}")
        ch.op(n=2)
        for v in V:
            ch.state(v)

    def nothing(ch):
        """no iteration: the initial rule is returned, not declared a solution"""
        m = build("mc", ("k",), ("i",), ch.pick("bounds", ["none", "i"]))
        start = ch.pick("start", ["default", "constant"])
        opts = {"dr0": ConstantDecisionRule(np.array([0.15]))} if start == "constant" else {}
        sol = time_iteration(m, verbose=False, maxit=0, **opts)
        ch.op()
        ch.same(sol.iterations, 0, "nothing:iterations")
        ch.check(not sol.x_converged, "nothing:converged", "")
        S = m.endo_grid.nodes
        for i in range(3):
            ch.close(sol.dr.eval_is(i, S), np.full((len(S), 1), 0.15 if start == "constant" else 0.2), "nothing:rule", 1e-12)
        ch.state(start)

    def examples(ch):
        """models of the repository, compiled by numba"""
        name = ch.pick("model", exp.q(["consumption_savings_iid"], ["rbc_iid", "rbc_mc", "rbc", "consumption_savings_iid"]))
        with kit.real():
            m = kit.example(name)
            sol = time_iteration(m, verbose=False, tol=1e-6)
        ch.op(n=sol.iterations)
        ch.check(sol.x_converged, "examples:converged", f"{sol.err}")
        grid, dp = m.discretize()
        S = grid["endo"].nodes
        f, g, p = m.functions["arbitrage"], m.functions["transition"], m.calibration["parameters"]
        worst = 0.0
        for i in range(dp.n_nodes):
            e = np.tile(dp.node(i), (len(S), 1))
            X = sol.dr.eval_is(i, S)
            res = np.zeros_like(X)
            for j in range(dp.n_inodes(i)):
                E = np.tile(dp.inode(i, j), (len(S), 1))
                S1 = g(e, S, X, E, p)
                X1 = sol.dr.eval_ijs(i, j, S1)
                res += dp.iweight(i, j) * f(e, S, X, E, S1, X1, p)
            if "arbitrage_lb" in m.functions:
                lb, ub = m.functions["arbitrage_lb"](e, S, p), m.functions["arbitrage_ub"](e, S, p)
                res = np.maximum(np.minimum(res, X - lb), X - ub)
            worst = max(worst, abs(res).max())
        ch.check(worst < 1e-4, "examples:equations", f"{name}: residual {worst}")
        ch.state(name)

    exp.explore("linear", linear)
    exp.explore("steps", steps)
    exp.explore("fixed", fixed)
    exp.explore("nothing", nothing)
    exp.explore("examples", examples)
