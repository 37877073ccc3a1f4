"""C17  improved time iteration.

Same families as C16: closed forms, nonlinear models with bounds; all inversion methods.
"""
import itertools

import numpy as np

from mc import kit, solved
from mc.checks import c16
from mc.checks.c16 import BOUNDS, axes, build, step_check, values
from mc.kit import dolo

from dolo.algos.improved_time_iteration import improved_time_iteration
from dolo.algos.time_iteration import time_iteration
from dolo.numeric.decision_rule import ConstantDecisionRule


def run(exp):
    kit.use_fast()
    exp.assume("models of the families of mc/solved.py and mc/checks/c16.py, up to two states and two controls")

    def linear(ch):
        shock = ch.pick("shock", list(solved.SHOCKS))
        n_s, n_x = ch.pick("dims", exp.q([(1, 2)], solved.DIMS))
        method = ch.pick("interp", ["linear", "cubic"])
        kind = ch.pick("dprocess", {"ar1": ["default", "n5", "gdp"], "iid": ["default", "quad"], "mc": ["default"], "mc2": ["default"], "const": ["default"]}[shock])
        inv = ch.pick("inversion", ["iti", "gmres"])
        b = ch.pick("bounds", ["absent", "infinite", "wide", "binding", "ignored"])
        scale = 0.0 if b == "binding" else 1.0
        text = {"absent": None, "infinite": [("-inf", "inf")] * n_x, "wide": [("-50", "50")] * n_x}.get(b, [("-0.2", "0.3"), ("-0.1", "0.25")][:n_x])
        m = solved.linear(shock, n_s, n_x, scale, text, (3, 4))
        if kind == "default":
            opts, dp = {}, m.exogenous.discretize()
        else:
            dp = {"n5": lambda: m.exogenous.discretize(N=5), "gdp": lambda: m.exogenous.discretize(to="gdp"), "quad": lambda: m.exogenous.discretize(to="iid", N=3)}[kind]()
            opts = {"dprocess": dp}
        if b == "ignored":
            opts["ignore_constraints"] = True
        radius = inv == "iti" and b == "absent"
        before = str(m.calibration)
        sol = improved_time_iteration(m, verbose=False, interp_method=method, invmethod=inv, compute_radius=radius, tol=1e-8, **opts)
        ch.op(n=sol.N + 1)
        mode = "iid" if shock in ("iid", "const") else ("gdp" if kind == "gdp" else "mc")
        K, alpha = solved.linear_rule(n_s, n_x, dp, mode, scale)
        S = np.array(list(itertools.product(*axes(m))))
        ch.check(sol.x_converged and sol.f_x < 1e-8, "linear:converged", f"{sol.f_x}")
        for i in range(len(alpha)):
            want = S @ K.T + alpha[i][None, :]
            if b == "binding":
                want = np.clip(want, [-0.2, -0.1][:n_x], [0.3, 0.25][:n_x])
            ch.close(sol.dr.eval_is(i, S), want, "linear:rule", 2e-6, f"exogenous state {i}")
        if radius and mode != "gdp":
            A = solved.mats(n_s, n_x)[0]
            ch.close(sol.radius, abs(np.linalg.eigvals(A)).max(), "linear:radius", 1e-4)
        ch.same(str(m.calibration), before, "linear:model")
        ch.state(shock, n_s, n_x, method, kind, inv, b)

    def nonlinear(ch):
        shock = ch.pick("shock", ["mc", "iid", "const", "mc2"])
        states, controls = ch.pick("variables", [(("k",), ("i",)), (("k", "z"), ("i", "n")), (("z", "k"), ("n", "i"))])
        bounds = ch.pick("bounds", [b for b in BOUNDS if set(BOUNDS[b]) <= set(controls)])
        method = ch.pick("interp", ["linear", "cubic"])
        inv = ch.pick("inversion", ["iti", "gmres"])
        ignore = ch.flag("ignore_constraints") if bounds != "none" else False
        m = build(shock, states, controls, bounds)
        dp = m.exogenous.discretize()
        start = ch.pick("start", ["default", "constant", "result"])
        opts = dict(verbose=False, interp_method=method, ignore_constraints=ignore)
        if start == "constant":
            opts["dr0"] = ConstantDecisionRule(np.array([0.15 if c == "i" else 0.05 for c in controls]))
        if start == "result":
            opts["dr0"] = time_iteration(m, verbose=False, interp_method=method, maxit=3).dr
        sol = improved_time_iteration(m, invmethod=inv, tol=1e-7, **opts)
        ch.op(n=sol.N + 1)
        ax = axes(m)
        S = np.array(list(itertools.product(*ax)))
        V = values(sol.dr, dp.n_nodes, S)
        ch.check(bool(sol.x_converged) == bool(sol.f_x < 1e-7), "nonlinear:flag", f"{sol.f_x}")
        ch.check(sol.x_converged, "nonlinear:converged", f"{sol.f_x} after {sol.N}")
        step_check(ch, "nonlinear", states, controls, "none" if ignore else bounds, dp, ax, method, V, V, 1e-5)
        # few iterations are not declared a solution, rules only are returned on demand
        short = improved_time_iteration(m, invmethod=inv, tol=1e-15, maxit=1, **opts)
        ch.check(not short.x_converged, "nonlinear:maxit", f"{short.x_converged} {short.f_x}")
        dr = improved_time_iteration(m, invmethod=inv, tol=1e-7, details=False, **opts)
        ch.close(np.array(values(dr, dp.n_nodes, S)), np.array(V), "nonlinear:details", 1e-9)
        opts["dr0"] = sol.dr
        again = improved_time_iteration(m, invmethod=inv, tol=1e-7, **opts)
        ch.check(again.N <= 1, "nonlinear:again", f"{again.N}")
        ch.op(n=sol.N + 4)
        for v in V:
            ch.state(v)

    def examples(ch):
        """models of the repository, compiled by numba: same rule as time iteration"""
        name = ch.pick("model", exp.q(["rbc_iid"], ["rbc_iid", "rbc_mc", "rbc"]))
        with kit.real():
            m = kit.example(name)
            ref = time_iteration(m, verbose=False, tol=1e-8)
            sol = improved_time_iteration(m, verbose=False)
        ch.op(n=sol.N + ref.iterations)
        ch.check(sol.x_converged, "examples:converged", f"{sol.f_x}")
        S = m.endo_grid.nodes
        for i in range(m.exogenous.discretize().n_nodes):
            ch.close(sol.dr.eval_is(i, S), ref.dr.eval_is(i, S), "examples:rule", 1e-3)
        ch.state(name)

    # compiled once for all workers
    improved_time_iteration(solved.linear("mc", 1, 1, 1.0, [("-50", "50")], (3, 4)), verbose=False, maxit=2)
    exp.explore("linear", linear)
    exp.explore("nonlinear", nonlinear)
    exp.explore("examples", examples)
