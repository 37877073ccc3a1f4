"""C18  value of a policy, value iteration.

Models whose value function is known (linear in states), and nonlinear ones whose value must
satisfy its own equation, recomputed from the written equations with an independent interpolation.
"""
import itertools

import numpy as np

from mc import kit, solved
from mc.checks.c16 import axes, many
from mc.kit import dolo, model

from dolo.algos.value_iteration import evaluate_policy, value_iteration
from dolo.numeric.decision_rule import DecisionRule

R, T, D = np.array([[0.5, 0.2], [-0.1, 0.7]]), np.array([[0.4, -0.2], [0.1, 0.3]]), np.array([0.3, -0.2])
Q, H = np.array([0.6, -0.4]), np.array([0.5, -1.0])
S_, X_ = ["z", "k"], ["x", "n"]
DOM = [(-1.0, 2.0), (-2.0, 1.0)]
_mem = {}


def build(shock, n_s, n_x, kind, beta, bounds, sizes):
    """kind: felicity linear in states, quadratic in controls, or anything"""
    key = (shock, n_s, n_x, kind, beta, str(bounds), sizes)
    if key in _mem:
        return _mem[key]
    sn, xn = S_[:n_s], X_[:n_x]
    lin = lambda c, names, d: " + ".join(f"({v})*{n}[{d}]" for v, n in zip(c, names))
    u = lin(Q, sn, "t") + " + " + " + ".join(f"({h})*e[t]*{x}[t] - 0.5*{x}[t]^2" for h, x in zip(H, xn))
    if kind == "linear":
        vals = [f"V[t] = {u} + beta*V[t+1]"]
        syms = "[V]"
    else:
        vals = [
            f"V[t] = exp(0.3*{sn[0]}[t]) + {xn[0]}[t]*e[t] + 0.2*{xn[0]}[t+1]^2 + beta*V[t+1]*(1-0.1*e[t+1])",
            f"W[t] = {sn[-1]}[t+1]^2 - 0.3*V[t+1] + 0.5*beta*W[t+1]",
        ]
        syms = "[V, W]"
    arb = []
    for k, x in enumerate(xn):
        arb.append(f"{x}[t] - 0.1*{sn[0]}[t]" + (f" ⟂ {bounds[k][0]} <= {x}[t] <= {bounds[k][1]}" if bounds else ""))
    tra = [f"{sn[i]}[t] = {lin(R[i], sn, 't-1')} + {lin(T[i], xn, 't-1')} + ({D[i]})*e[t]" for i in range(n_s)]
    nl, il = "\n        ", "\n    "
    _mem[key] = model(f"""
name: values
symbols:
    exogenous: [e]
    states: [{', '.join(sn)}]
    controls: [{', '.join(xn)}]
    values: {syms}
    rewards: [u]
    parameters: [beta]
equations:
    arbitrage: |
        {nl.join(arb)}
    transition: |
        {nl.join(tra)}
    value: |
        {nl.join(vals)}
    felicity: |
        u[t] = {u}
calibration:
    beta: {beta}
    e: 0.0
    V: 0.5
    {'W: -0.5' if kind != 'linear' else ''}
    u: 0.0
    {il.join(f'{n}: 0.0' for n in sn + xn)}
domain:
    {il.join(f'{n}: [{DOM[i][0]}, {DOM[i][1]}]' for i, n in enumerate(sn))}
exogenous: {solved.SHOCKS[shock]}
options:
    grid: !Cartesian
        n: {list(sizes[:n_s])}
""")
    return _mem[key]


def rule_values(n_s, n_x, K, a, S, e):
    return S @ K.T + a[None, :] + e * np.array([0.2, -0.1])[:n_x][None, :]


def run(exp):
    kit.use_fast()
    exp.assume("models of the family of mc/checks/c18.py, up to two states and two controls")

    def values(dr, n, S):
        return np.array([dr.eval_is(i, S) for i in range(n)])

    def policy(ch):
        """the value of a given rule"""
        shock = ch.pick("shock", list(solved.SHOCKS))
        n_s, n_x = ch.pick("dims", [(1, 1), (2, 1), (1, 2), (2, 2)])
        kind = ch.pick("value", ["linear", "other"])
        beta = ch.pick("beta", [0.9, 0.5, 0.0])
        method = ch.pick("interp", ["linear", "cubic"])
        sizes = ch.pick("sizes", exp.q([(4, 5)], [(4, 5), (3, 7)]))
        shape = ch.pick("rule", ["constant", "affine"])
        m = build(shock, n_s, n_x, kind, beta, None, sizes)
        grid, dp = m.discretize()
        ax = axes(m)
        S = np.array(list(itertools.product(*ax)))
        e, E, W = solved.nodes_of(dp)
        n = len(e)
        K = np.array([[0.1, -0.2], [0.15, 0.1]])[:n_x, :n_s] * (shape == "affine")
        a = np.array([0.1, -0.2])[:n_x]
        dr = DecisionRule(grid["exo"], grid["endo"], "linear", dprocess=dp, values=np.array([rule_values(n_s, n_x, K, a, S, v) for v in e]))
        before = values(dr, n, S)
        start = ch.pick("start", [None, "guess"])
        opts = {}
        if start == "guess":
            guess = DecisionRule(grid["exo"], grid["endo"], method, values=np.tile(np.arange(2.0)[: 1 if kind == "linear" else 2] + 1, (n, len(S), 1)))
            opts["dr0"] = guess
        verbose = start == "guess"
        with kit.quiet():
            res = evaluate_policy(m, dr, verbose=verbose, details=True, interp_method=method, **opts)
        ch.op(n=res.iterations)
        V = values(res.solution, n, S)
        ch.close(values(dr, n, S), before, "policy:rule", 0, "the given rule")
        ch.check(res.error < res.tol, "policy:converged", f"{res.error}")
        if start == "guess":
            ch.close(values(guess, n, S), np.tile(np.arange(2.0)[: V.shape[2]] + 1, (n, len(S), 1)), "policy:guess", 1e-12, "the given initial value")
        Rr, Tt, Dd = R[:n_s, :n_s], T[:n_s, :n_x], D[:n_s]
        if kind == "linear" and shape == "constant":
            # V = v S + w_i
            v = np.linalg.solve(np.eye(n_s) - beta * Rr.T, Q[:n_s])
            c = np.zeros(n)
            M = np.eye(n)
            for i in range(n):
                x = before[i][0]
                c[i] = (H[:n_x] * e[i] * x - 0.5 * x**2).sum() + beta * v @ (Tt @ x)
                for j in range(len(W[i])):
                    c[i] += beta * W[i][j] * (v @ Dd) * E[i][j]
                    M[i, 0 if n == 1 else j] -= beta * W[i][j]
            w = np.linalg.solve(M, c)
            for i in range(n):
                ch.close(V[i][:, 0], S @ v + w[i], "policy:closed-form", 1e-6)
        if method == "linear" or kind == "linear":
            # own equation
            for i in range(n):
                out = np.zeros_like(V[i])
                for j in range(len(W[i])):
                    X = before[i]
                    S1 = S @ Rr.T + X @ Tt.T + E[i][j] * Dd[None, :]
                    q = 0 if n == 1 else j
                    meth = method
                    if method == "cubic" and any(S1[:, k].min() < ax[k][0] or S1[:, k].max() > ax[k][-1] for k in range(n_s)):
                        out = None
                        break
                    sh = [len(t) for t in ax]
                    V1 = many(meth, ax, V[q].reshape(sh + [-1]), S1)
                    X1 = many("linear", ax, before[q].reshape(sh + [-1]), S1)
                    if kind == "linear":
                        t = (S @ Q[:n_s] + (H[:n_x] * e[i] * X - 0.5 * X**2).sum(axis=1) + beta * V1[:, 0])[:, None]
                    else:
                        t = np.column_stack([
                            np.exp(0.3 * S[:, 0]) + X[:, 0] * e[i] + 0.2 * X1[:, 0] ** 2 + beta * V1[:, 0] * (1 - 0.1 * E[i][j]),
                            S1[:, -1] ** 2 - 0.3 * V1[:, 0] + 0.5 * beta * V1[:, 1],
                        ])
                    out += W[i][j] * t
                if out is not None:
                    ch.close(V[i], out, "policy:equation", 1e-6, f"exogenous state {i}")
        # without details
        bare = evaluate_policy(m, dr, verbose=False, interp_method=method)
        ch.close(values(bare, n, S), V, "policy:details", 1e-6)
        k = ch.pick("maxit", [1, 3])
        few = evaluate_policy(m, dr, verbose=False, details=True, interp_method=method, maxit=k, tol=1e-16)
        ch.check(few.iterations <= k and (few.iterations == k or few.error <= 1e-16), "policy:maxit", f"{few.iterations} iterations of {k}")
        ch.op(n=res.iterations + k)
        ch.state(V)

    def optimum(ch):
        """value iteration finds the best rule within bounds"""
        shock = ch.pick("shock", ["mc", "iid", "const", "mc2", "ar1"])
        n_s, n_x = ch.pick("dims", exp.q([(1, 1), (2, 2)], [(1, 1), (2, 1), (1, 2), (2, 2)]))
        beta = ch.pick("beta", exp.q([0.9, 0.4], [0.9, 0.6, 0.0]))
        b = ch.pick("bounds", ["none", "wide", "binding", "lower"])
        bounds = {"none": None, "wide": [("-9", "9")] * 2, "binding": [("-0.1", "0.2"), ("-0.2", "0.1")], "lower": [("0.1", "inf"), ("-0.1", "inf")]}[b]
        lim = {"none": [(-np.inf, np.inf)] * 2, "wide": [(-9, 9)] * 2, "binding": [(-0.1, 0.2), (-0.2, 0.1)], "lower": [(0.1, np.inf), (-0.1, np.inf)]}[b][:n_x]
        m = build(shock, n_s, n_x, "linear", beta, bounds[:n_x] if bounds else None, exp.q((2, 3), (3, 4)))
        dp = m.exogenous.discretize()
        ax = axes(m)
        S = np.array(list(itertools.product(*ax)))
        e, E, W = solved.nodes_of(dp)
        n = len(e)
        details = ch.flag("details")
        sol = value_iteration(m, verbose=False, details=details)
        dr, drv = (sol.dr, sol.drv) if details else sol
        if details:
            ch.op(n=sol.iterations)
            ch.check(sol.x_converged and sol.x_err < sol.x_tol, "optimum:converged", f"{sol.x_err}")
        Rr, Tt, Dd = R[:n_s, :n_s], T[:n_s, :n_x], D[:n_s]
        v = np.linalg.solve(np.eye(n_s) - beta * Rr.T, Q[:n_s])
        x = np.array([np.clip(beta * Tt.T @ v + H[:n_x] * e[i], *np.array(lim).T) for i in range(n)])
        c, M = np.zeros(n), np.eye(n)
        for i in range(n):
            c[i] = (H[:n_x] * e[i] * x[i] - 0.5 * x[i] ** 2).sum() + beta * v @ (Tt @ x[i])
            for j in range(len(W[i])):
                c[i] += beta * W[i][j] * (v @ Dd) * E[i][j]
                M[i, 0 if n == 1 else j] -= beta * W[i][j]
        w = np.linalg.solve(M, c)
        for i in range(n):
            ch.close(dr.eval_is(i, S), np.tile(x[i], (len(S), 1)), "optimum:rule", 1e-4, f"exogenous state {i}")
            ch.close(drv.eval_is(i, S)[:, 0], S @ v + w[i], "optimum:value", 1e-4, f"exogenous state {i}")
        ch.state(shock, n_s, n_x, beta, b)

    exp.explore("policy", policy)
    exp.explore("optimum", optimum)
