"""C25  tabulated decision rules (same family of models as C10)."""
import itertools

import numpy as np

from mc import kit
from mc.kit import dolo
from mc.checks.c10 import DISCRETE, TWO, Result, build, columns, custom, on_grid

from dolo.algos.simulations import plot_decision_rule, tabulate, tabulate_2d
from dolo.numeric.grids import CartesianGrid, EmptyGrid

KINDS = ["UNormal", "Normal", "AR1", "VAR1", "MC", "MC2", "Constant"]


def run(exp):
    kit.use_fast()
    exp.assume("the family of models of mc/checks/c10.py")

    def setup(ch):
        kind = ch.pick("shock", KINDS)
        aux, order = ch.flag("aux"), ch.flag("order")
        m = build(kind, aux, order)
        how = ch.pick("rule", ["custom", "grid"] + (["gdp"] if kind == "AR1" else []) + (["perturb"] if kind in ("UNormal", "VAR1") else []))
        if how == "custom":
            dr, rule = custom(m, kind), "e"
        elif how == "perturb":
            from dolo.algos.perturbation import BivariateTaylor

            st, co, ex = m.symbols["states"], m.symbols["controls"], m.symbols["exogenous"]
            one = lambda name, v: {w: np.array(float(w == v)) for w in ("e", "u", "z", "k")}
            rule = "no e" if kind == "UNormal" else "e"
            zero = columns(kind, rule, one(None, None))
            part = {v: {c: columns(kind, rule, one(None, v))[c] - zero[c] for c in co} for v in ex + st}
            C_m = None if kind == "UNormal" else np.array([[part[v][c] for v in ex] for c in co], dtype=float)
            C_s = np.array([[part[v][c] for v in st] for c in co], dtype=float)
            dr = BivariateTaylor(np.zeros(len(ex)), np.zeros(2), np.array([zero[c] for c in co], dtype=float), C_m, C_s)
        else:
            dr, rule = on_grid(m, kind, "gdp" if how == "gdp" else None)
        return kind, aux, m, how, dr, rule

    def judge(ch, kind, aux, m, rule, df, tag):
        ex, st, co = m.symbols["exogenous"], m.symbols["states"], m.symbols["controls"]
        d = {c: np.array(df[c], dtype=float) for c in list(ex) + list(st)}
        for c, w in columns(kind, rule, d).items():
            ch.close(df[c], w, f"{tag}:rule", 1e-9, f"control {c}")
        if aux:
            y = d["k"] * np.array(df["n"]) + d["z"] + d["e"]
            ch.close(df["y"], y, f"{tag}:definitions", 1e-9)
            ch.close(df["c"], y - df["i"], f"{tag}:definitions", 1e-9)

    def tables(ch):
        kind, aux, m, how, dr, rule = setup(ch)
        ex, st, co = m.symbols["exogenous"], m.symbols["states"], m.symbols["controls"]
        state = ch.pick("state", ["z", "k"])
        bounds = ch.pick("bounds", [None, [0.9, 1.7]])
        n = ch.pick("n", [None, 1, 4])
        s0 = ch.pick("s0", [None, {"z": 0.3, "k": 1.5}, "ints"])
        kw = {}
        start = {"z": 0.1, "k": 2.0}
        if s0 == "ints":
            start = {"z": 1, "k": 2}
            kw["s0"] = np.array([start[v] for v in st])
        elif s0:
            start = s0
            kw["s0"] = np.array([s0[v] for v in st])
        if bounds is not None:
            kw["bounds"] = bounds
        if n is not None:
            kw["n_steps"] = n
        indexed = kind in DISCRETE or (kind in ("AR1", "VAR1") and how in ("grid", "custom", "perturb"))
        dp = getattr(dr, "dprocess", None) or m.exogenous.discretize()
        give = ch.pick("give", [None, "i0"] if indexed else [None, "m0"])
        if give == "i0":
            i0 = ch.pick("i0", range(dp.n_nodes))
            kw["i0"] = i0
            mm = dp.node(i0)
        elif give == "m0":
            mm = np.array([0.2, -0.3])[: len(ex)]
            kw["m0"] = mm.copy()
        elif indexed:
            mm = dp.node((dp.n_nodes - 1) // 2)
        else:
            mm = np.array([0.05, -0.02])[: len(ex)] if how != "none" else None
        if give is None and not indexed:
            # the default is the calibrated value
            mm = np.array(m.calibration["exogenous"])
        arg = Result(dr) if ch.flag("result") else dr
        keep = {k: np.array(v) for k, v in kw.items()}
        cal = np.array(m.calibration["states"])
        df = tabulate(m, arg, state, **kw)
        ch.op()
        for k, v in keep.items():
            ch.close(kw[k], v, "tables:argument", 0)
        ch.close(m.calibration["states"], cal, "tables:calibration", 0)
        ch.same(list(df.columns), list(ex) + list(st) + list(co) + (["y", "c"] if aux else []), "tables:columns")
        N = 100 if n is None else n
        ch.same(len(df), N, "tables:length")
        lo, hi = bounds or {"z": (-2, 2), "k": (0.5, 6)}[state]
        want = np.array([lo]) if N == 1 else lo + (hi - lo) * np.arange(N) / (N - 1)
        ch.close(df[state], want, "tables:state", 1e-12)
        other = "k" if state == "z" else "z"
        ch.close(df[other], np.full(N, start[other]), "tables:other-state", 1e-12)
        for k, v in enumerate(ex):
            ch.close(df[v], np.full(N, mm[k]), "tables:exogenous", 1e-12, f"{v} {give}")
        judge(ch, kind, aux, m, rule, df, "tables")
        ch.state(kind, how, state, N, bounds, s0, mm)

    def tables2(ch):
        kind, aux, m, how, dr, rule = setup(ch)
        if how in ("perturb",) or (how == "custom" and kind not in DISCRETE):
            ch.prune()
        ex, st, co = m.symbols["exogenous"], m.symbols["states"], m.symbols["controls"]
        states = ch.pick("states", [None, ["z", "k"], ["k", "z"]])
        n = ch.pick("n", [None, [2, 3], [1, 4]])
        dp = getattr(dr, "dprocess", None) or m.exogenous
        i0 = ch.pick("i0", [None] + (list(range(dp.n_nodes)) if not isinstance(dp.grid, EmptyGrid) else []))
        kw = {}
        if states is not None:
            kw["states"] = list(states)
        if n is not None:
            kw["n"] = list(n)
        if i0 is not None:
            kw["i0"] = i0
        if ch.flag("s0"):
            kw["s0"] = np.array([1, 2] if ch.flag("ints") else [0.3, 1.5])
        s0 = None if "s0" not in kw else kw["s0"].copy()
        cal = np.array(m.calibration["states"])
        arg = Result(dr) if ch.flag("result") else dr
        x = tabulate_2d(m, arg, **kw)
        ch.op()
        if s0 is not None:
            ch.close(kw["s0"], s0, "tables2:argument", 0)
        ch.close(m.calibration["states"], cal, "tables2:calibration", 0)
        a, b = states or st
        na, nb = n or (12, 13)
        dom = {"z": (-2, 2), "k": (0.5, 6)}
        ch.same(x.dims, (a, b, "V"), "tables2:dims")
        ch.same(list(x.coords["V"].data), list(st) + list(co), "tables2:names")
        la, lb = np.linspace(*dom[a], na), np.linspace(*dom[b], nb)
        ch.close(x.coords[a], la, "tables2:axis", 1e-12)
        ch.close(x.coords[b], lb, "tables2:axis", 1e-12)
        A, B = np.meshgrid(la, lb, indexing="ij")
        ch.close(x.sel(V=a).data, A, "tables2:state", 1e-12, f"values of {a}")
        ch.close(x.sel(V=b).data, B, "tables2:state", 1e-12, f"values of {b}")
        d = {a: A, b: B}
        d.update({v: e for v, e in zip(ex, dp.node(i0 or 0))})
        for c, w in columns(kind, rule, d).items():
            ch.close(x.sel(V=c).data, w, "tables2:rule", 1e-9, f"control {c}")
        ch.state(kind, how, states, n, i0)

    def plots(ch):
        """the lines that are drawn are the columns of the table"""
        import matplotlib

        matplotlib.use("Agg")
        from matplotlib import pyplot

        kind, aux, m, how, dr, rule = setup(ch)
        state = ch.pick("state", ["z", "k"])
        pc = ch.pick("controls", [None, "i", ["n"], ["n", "i"]])
        bounds = ch.pick("bounds", [None, [0.9, 1.7]])
        kw = {} if pc is None else dict(plot_controls=pc)
        if bounds:
            kw["bounds"] = bounds
        pyplot.close("all")
        fig = pyplot.figure()
        plot_decision_rule(m, dr, state, **kw)
        ch.op()
        lines = pyplot.gca().get_lines()
        df = tabulate(m, dr, state, **({"bounds": bounds} if bounds else {}))
        want = [pc] if isinstance(pc, str) else list(pc or m.symbols["controls"])
        ch.same(len(lines), len(want), "plots:lines")
        for l, c in zip(lines, want):
            ch.close(l.get_xdata(), df[state], "plots:x", 0)
            ch.close(l.get_ydata(), df[c], "plots:y", 0)
        pyplot.close("all")
        ch.state(kind, how, state, pc, bounds)

    exp.explore("tables", tables)
    exp.explore("tables2", tables2)
    exp.explore("plots", plots)
