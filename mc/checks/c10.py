"""C10  simulations and impulse responses of a model.

Every simulated table is judged against the written equations: the model family has affine
rules, transitions and a nonlinear definition, whose values are recomputed row by row from the
table itself, for all combinations of kind of shock, rule, options and sizes.
"""
import itertools

import numpy as np

from mc import kit
from mc.kit import dolo, model

import dolo.algos.simulations as S
from dolo.algos.results import AlgoResult
from dolo.numeric.decision_rule import CustomDR, DecisionRule
from dolo.numeric.grids import EmptyGrid
from dolo.numeric.processes import AR1, VAR1, MarkovChain

SHOCKS = {
    "UNormal": "!UNormal\n    sigma: 0.2",
    "Normal": "!Normal\n    Sigma: [[0.04, 0.01],[0.01, 0.09]]",
    "AR1": "!AR1\n    rho: 0.5\n    sigma: 0.3",
    "VAR1": "!VAR1\n    rho: 0.5\n    Sigma: [[0.04, 0.01],[0.01, 0.09]]",
    "Constant": "!ConstantProcess\n    mu: [0.4]",
    "MC": "!MarkovChain\n    values: [[-0.1],[0.2],[0.3]]\n    transitions: [[0.2,0.5,0.3],[0.0,0.5,0.5],[1.0,0.0,0.0]]",
    "MC2": "!MarkovChain\n    values: [[-0.1, 0.3],[0.2, 0.4]]\n    transitions: [[0.0,1.0],[1.0,0.0]]",
    "MCdup": "!MarkovChain\n    values: [[0.1],[0.1],[0.3]]\n    transitions: [[0.0,1.0,0.0],[0.0,0.0,1.0],[1.0,0.0,0.0]]",
    "Product": "!Product\n    - !AR1\n        rho: 0.5\n        sigma: 0.3\n    - !UNormal\n        sigma: 0.2",
}
TWO = ("Normal", "VAR1", "MC2", "Product")
DISCRETE = ("MC", "MC2", "MCdup")
_mem = {}


class Result(AlgoResult):
    """what solution methods return"""

    def __init__(self, dr):
        self.dr = dr


def build(kind, aux, order):
    key = (kind, aux, order)
    if key not in _mem:
        ex = ["e", "u"] if kind in TWO else ["e"]
        st = ["z", "k"] if order else ["k", "z"]
        co = ["i", "n"] if order else ["n", "i"]
        u = lambda c, d: f" + {c}*u[t{d}]" if kind in TWO else ""
        eqs = {
            "z": f"z[t] = rz*z[t-1] + e[t] + 0.3*e[t-1]{u(0.7, '')}",
            "k": f"k[t] = 0.9*k[t-1] + i[t-1] - 0.2*n[t-1] + 0.1*z[t-1] + 0.2*e[t]{u(0.6, '-1')}",
        }
        defs = "definitions: |\n    y[t] = k[t]*n[t] + z[t] + e[t]\n    c[t] = y[t] - i[t]\n" if aux else ""
        text = f"""
name: sim
symbols:
    exogenous: [{', '.join(ex)}]
    states: [{', '.join(st)}]
    controls: [{', '.join(co)}]
    parameters: [rz]
{defs}
equations:
    arbitrage: |
        i[t] - 0.1*k[t]
        n[t] - 1 + 0.3*k[t]
    transition: |
        {eqs[st[0]]}
        {eqs[st[1]]}
calibration:
    rz: 0.5
    e: 0.05
    u: -0.02
    z: 0.1
    k: 2.0
    i: 0.2
    n: 0.4
domain:
    z: [-2, 2]
    k: [0.5, 6]
exogenous: {SHOCKS[kind]}
options:
    grid: !Cartesian
        n: [3, 4]
"""
        _mem[key] = model(text)
    return _mem[key]


def columns(kind, rule, d):
    """the rule and its derived columns, from the other columns of a table"""
    two = kind in TWO
    e = d["e"] if rule != "no e" else 0.0
    u = d["u"] if two and rule != "no e" else 0.0
    return {
        "i": 0.2 + 0.1 * d["k"] + 0.2 * d["z"] + 0.05 * e + 0.4 * u,
        "n": 1.0 - 0.3 * d["k"] + e - 0.1 * u,
    }


def next_state(kind, d0, d1):
    two = kind in TWO
    return {
        "z": 0.5 * d0["z"] + d1["e"] + 0.3 * d0["e"] + (0.7 * d1["u"] if two else 0),
        "k": 0.9 * d0["k"] + d0["i"] - 0.2 * d0["n"] + 0.1 * d0["z"] + 0.2 * d1["e"] + (0.6 * d0["u"] if two else 0),
    }


def custom(m, kind):
    u = (" + 0.4*u", " - 0.1*u") if kind in TWO else ("", "")
    return CustomDR({"i": f"0.2 + 0.1*k + 0.2*z + 0.05*e{u[0]}", "n": f"1.0 - 0.3*k + e{u[1]}"}, m)


def on_grid(m, kind, to):
    dp = m.exogenous.discretize(**({} if to is None else dict(to=to)))
    endo = m.endo_grid
    rule = "no e" if isinstance(dp.grid, EmptyGrid) else "e"
    st, co, ex = m.symbols["states"], m.symbols["controls"], m.symbols["exogenous"]
    vals = []
    for i in range(dp.n_nodes):
        d = dict(zip(st, endo.nodes.T))
        d.update(zip(ex, dp.node(i)))
        c = columns(kind, rule, d)
        vals.append(np.column_stack([c[v] for v in co]))
    return DecisionRule(dp.grid, endo, "linear", dprocess=dp, values=np.array(vals)), rule


def judge(ch, m, kind, rule, x, N, T, tag):
    """the table follows the rule, the transition and the definitions"""
    ch.same(x.dims, ("T", "N", "V"), f"{tag}:dims")
    names = list(x.coords["V"].data)
    discrete = names[0] == "_i_m"
    aux = m.symbols["auxiliaries"] if "auxiliary" in m.functions else []
    want = m.symbols["exogenous"] + m.symbols["states"] + m.symbols["controls"] + aux
    ch.same(names[1:] if discrete else names, list(want), f"{tag}:names")
    ch.same((x.sizes["T"], x.sizes["N"]), (T, N), f"{tag}:size")
    d = {v: x.sel(V=v).data.astype(float) for v in names}
    for v, w in columns(kind, rule, d).items():
        ch.close(d[v], w, f"{tag}:rule", 1e-9, f"control {v}")
    if T > 1:
        nx = next_state(kind, {v: a[:-1] for v, a in d.items()}, {v: a[1:] for v, a in d.items()})
        for v, w in nx.items():
            ch.close(d[v][1:], w, f"{tag}:transition", 1e-9, f"state {v}")
    if aux:
        y = d["k"] * d["n"] + d["z"] + d["e"]
        ch.close(d["y"], y, f"{tag}:definitions", 1e-9)
        ch.close(d["c"], y - d["i"], f"{tag}:definitions", 1e-9)
    return d


def run(exp):
    kit.use_fast()
    exp.assume("one family of models with affine rules and transitions, two states and two controls; shocks from the menu of mc/checks/c10.py")

    def simulations(ch):
        kind = ch.pick("shock", list(SHOCKS))
        order, aux = ch.flag("order"), ch.flag("aux")
        m = build(kind, aux, order)
        how = ch.pick("rule", ["custom", "grid"] + (["gdp"] if kind == "AR1" else []))
        if how == "custom":
            dr, rule = custom(m, kind), "e"
        else:
            dr, rule = on_grid(m, kind, "gdp" if how == "gdp" else None)
        N, T = ch.pick("N", [1, 3]), ch.pick("T", [1, 2, 5])
        kw = {}
        st = m.symbols["states"]
        s0 = ch.pick("s0", [None, {"z": 0.3, "k": 1.5}])
        start = {"z": 0.1, "k": 2.0} if s0 is None else s0
        if s0 is not None:
            kw["s0"] = np.array([s0[v] for v in st])
        discrete = kind in DISCRETE or (how == "grid" and kind in ("AR1", "VAR1", "Product"))
        seed = ch.pick("seed", [None, 7])
        if seed is not None:
            kw["seed"] = seed
        i0, m0 = None, None
        d_e = len(m.symbols["exogenous"])
        if discrete:
            i0 = ch.pick("i0", [None, 1])
            if i0 is not None:
                kw["i0"] = i0
        elif kind != "Product":
            m0 = ch.pick("m0", [None, [0.2, -0.3][:d_e]])
            if m0 is not None:
                kw["m0"] = np.array(m0)
        arg = Result(dr) if ch.flag("result") else dr
        before = [np.array(v) for v in m.calibration.grouped.values()]
        np.random.seed(123)
        a = dolo.simulate(m, arg, N=N, T=T, **kw)
        ch.op()
        d = judge(ch, m, kind, rule, a, N, T, "simulations")
        for v, w in start.items():
            ch.close(d[v][0], np.full(N, w), "simulations:s0", 1e-12, f"initial {v}")
        ch.same("_i_m" in d, discrete, "simulations:discrete")
        if discrete:
            dp = m.exogenous if kind in DISCRETE else dr.dprocess
            ind = d["_i_m"].astype(int)
            ch.same(ind[0].tolist(), [i0 or 0] * N, "simulations:i0")
            for k, v in enumerate(m.symbols["exogenous"]):
                ch.close(d[v], dp.values[ind][:, :, k], "simulations:values", 0)
            for t in range(T - 1):
                for n in range(N):
                    ch.check(dp.transitions[ind[t, n], ind[t + 1, n]] > 0, "simulations:jump", f"{ind[t, n]} -> {ind[t + 1, n]}")
        elif kind in ("AR1", "VAR1"):
            for k, v in enumerate(m.symbols["exogenous"]):
                ch.close(d[v][0], np.full(N, 0.0 if m0 is None else m0[k]), "simulations:m0", 1e-12)
        elif kind == "Constant":
            ch.close(d["e"], np.full((T, N), 0.4 if True else 0), "simulations:constant", 1e-12)
        # same seed, same table, whatever was drawn in between
        np.random.seed(99)
        np.random.rand(5)
        b = dolo.simulate(m, arg, N=N, T=T, **kw)
        ch.op()
        ch.close(b.data, a.data, "simulations:seed", 0, "two simulations with one seed")
        if kind in ("UNormal", "Normal", "AR1", "VAR1") and how != "grid" and T > 2:
            kw2 = dict(kw, seed=1000)
            c = dolo.simulate(m, arg, N=N, T=T, **kw2)
            ch.check(np.abs(c.sel(V="e").data - a.sel(V="e").data).max() > 1e-6, "simulations:other-seed", "the seed has no effect")
            if N > 1:
                e = d["e"][1:]
                ch.check(len(set(np.round(e.ravel(), 12))) == e.size, "simulations:same-draws", "simulations share their shocks")
        after = [np.array(v) for v in m.calibration.grouped.values()]
        for p, q in zip(before, after):
            ch.close(q, p, "simulations:calibration", 0, "the calibration has changed")
        if "s0" in kw:
            ch.close(kw["s0"], [s0[v] for v in st], "simulations:argument", 0)
        ch.state(kind, how, N, T, s0, i0, m0)

    def processes(ch):
        """the process given by the user drives the simulation; none of its shocks if stochastic=False"""
        kind = ch.pick("shock", ["AR1", "MC", "UNormal"])
        m = build(kind, ch.flag("aux"), True)
        N, T = ch.pick("N", [1, 2]), ch.pick("T", [1, 4])
        what = ch.pick("process", ["AR1 mean", "AR1 from", "chain", "chain from", "none"])
        dr = custom(m, kind)
        kw = dict(seed=3)
        if what == "none":
            p = None
            if kind == "UNormal":
                ch.prune()
            kw["stochastic"] = False
            if kind == "AR1":
                kw["m0"] = np.array([0.8])
                want = 0.8 * 0.5 ** np.arange(T)
            else:
                kw["i0"] = 2
                want = np.full(T, 0.3)
        elif what == "AR1 mean":
            p, want = AR1(ρ=0.5, σ=0.0, μ=0.7), np.full(T, 0.7)
        elif what == "AR1 from":
            p, want = AR1(ρ=0.5, σ=0.0, μ=0.7), 0.7 + 0.5 ** np.arange(T) * (0.1 - 0.7)
            kw["m0"] = np.array([0.1])
        else:
            p = MarkovChain([[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-0.1], [0.2], [0.3]])
            if kind != "MC":
                ch.prune()
            if what == "chain":
                want = np.array([-0.1, 0.3, 0.2, -0.1])[:T]
            else:
                kw["i0"] = 1
                want = np.array([0.2, -0.1, 0.3, 0.2])[:T]
        if p is not None:
            kw["process"] = p
        x = dolo.simulate(m, dr, N=N, T=T, **kw)
        ch.op()
        d = judge(ch, m, kind, "e", x, N, T, "processes")
        for n in range(N):
            ch.close(d["e"][:, n], want, "processes:path", 1e-12, f"{what}")
        ch.state(kind, what, N, T)

    def driven(ch):
        """along given values, or given indices of a markov chain"""
        kind = ch.pick("shock", ["UNormal", "AR1", "VAR1", "MC", "MC2", "MCdup"])
        m = build(kind, ch.flag("aux"), ch.flag("order"))
        N, T = ch.pick("N", [1, 2]), ch.pick("T", [1, 3])
        d_e = len(m.symbols["exogenous"])
        give = ch.pick("give", ["values", "indices"] if kind in DISCRETE else ["values"])
        how = ch.pick("rule", ["custom"] + (["gdp"] if kind == "AR1" else []) + (["grid"] if give == "indices" else []))
        dr, rule = (custom(m, kind), "e") if how == "custom" else on_grid(m, kind, "gdp" if how == "gdp" else None)
        extra = {}
        if ch.flag("extra"):
            extra = dict(i0=1) if give == "indices" else dict(m0=np.full(d_e, 0.9))
        if give == "values":
            vals = np.array([[[0.1 * (t + 1) - 0.3 * n + 0.05 * k for k in range(d_e)] for n in range(N)] for t in range(T)])
            keep = vals.copy()
            x = dolo.simulate(m, dr, N=N, T=T, driving_process=vals, **extra)
            ch.op()
            ch.close(vals, keep, "driven:argument", 0)
            d = judge(ch, m, kind, rule, x, N, T, "driven")
        else:
            nn = m.exogenous.n_nodes
            idx = np.array([[ch.pick(f"i {t},{n}", range(nn)) for n in range(N)] for t in range(T)])
            keep = idx.copy()
            x = dolo.simulate(m, dr, N=N, T=T, driving_process=idx, **extra)
            ch.op()
            ch.close(idx, keep, "driven:argument", 0)
            d = judge(ch, m, kind, rule, x, N, T, "driven")
            ch.close(d["_i_m"], keep, "driven:indices", 0)
            vals = m.exogenous.values[keep]
        for k, v in enumerate(m.symbols["exogenous"]):
            ch.close(d[v], vals[:, :, k], "driven:values", 0)
        for v, w in {"z": 0.1, "k": 2.0}.items():
            ch.close(d[v][0], np.full(N, w), "driven:s0", 1e-12)
        ch.state(kind, how, N, T, keep)

    def responses(ch):
        kind = ch.pick("shock", ["UNormal", "Normal", "AR1", "VAR1"])
        m = build(kind, ch.flag("aux"), ch.flag("order"))
        ex = m.symbols["exogenous"]
        v = ch.pick("variable", ex)
        T = ch.pick("T", [None, 2, 5])
        imp = ch.pick("impulse", [None, 0.7, -0.1])
        how = ch.pick("rule", ["custom"] + (["gdp"] if kind == "AR1" else []))
        dr, rule = (custom(m, kind), "e") if how == "custom" else on_grid(m, kind, "gdp")
        arg = Result(dr) if ch.flag("result") else dr
        kw = {}
        if T is not None:
            kw["T"] = T
        if imp is not None:
            kw["impulse"] = imp
        import contextlib, io

        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            x = dolo.response(m, arg, v, **kw)
        ch.op()
        ch.same(out.getvalue(), "", "responses:printed")
        T = T or 40
        sd = {"UNormal": {"e": 0.2}, "AR1": {"e": 0.3}, "Normal": {"e": 0.2, "u": 0.3}, "VAR1": {"e": 0.2, "u": 0.3}}[kind][v]
        size = sd if imp is None else imp
        ch.same(x.dims, ("T", "V"), "responses:dims")
        ch.same(list(x.coords["T"].data), list(range(T)), "responses:T")
        d = judge(ch, m, kind, rule, x.expand_dims("N").transpose("T", "N", "V"), 1, T, "responses")
        for w in ex:
            path = np.zeros(T)
            if w == v:
                path[1:] = size * (0.5 ** np.arange(T - 1) if kind in ("AR1", "VAR1") else np.eye(T - 1)[0])
            ch.close(d[w][:, 0], path, "responses:impulse", 1e-12, f"exogenous {w}")
        ch.close(d["z"][0, 0], 0.1, "responses:s0", 1e-12)
        ch.close(d["k"][0, 0], 2.0, "responses:s0", 1e-12)
        ch.state(kind, v, T, size, how)

    def compiled(ch):
        """one example model, compiled by numba: rows are related by its own functions"""
        name = ch.pick("model", ["rbc", "rbc_iid", "rbc_mc"])
        with kit.real():
            m = dolo.yaml_import(f"/repo/examples/models/{name}.yaml", check=False)
            s, x = m.calibration["states"], m.calibration["controls"]
            ctrl = m.symbols["controls"]
            dr = CustomDR({c: f"{float(v)} + 0.01*({m.symbols['states'][0]} - {float(s[0])})" for c, v in zip(ctrl, x)}, m)
            N, T = 2, 4
            a = dolo.simulate(m, dr, N=N, T=T, seed=1)
            b = dolo.simulate(m, dr, N=N, T=T, seed=1)
            ch.op(n=2)
            ch.close(a.data, b.data, "compiled:seed", 0)
            g = m.functions["transition"]
            p = m.calibration["parameters"]
            get = lambda k: a.sel(V=list(m.symbols[k])).data
            E, K, X = get("exogenous"), get("states"), get("controls")
            for t in range(T - 1):
                for n in range(N):
                    ch.close(K[t + 1, n], g(E[t, n], K[t, n], X[t, n], E[t + 1, n], p), "compiled:transition", 1e-9)
            for k, c in enumerate(ctrl):
                ch.close(X[:, :, k], x[k] + 0.01 * (K[:, :, 0] - s[0]), "compiled:rule", 1e-9)
        ch.state(name)

    exp.explore("simulations", simulations)
    exp.explore("processes", processes)
    exp.explore("driven", driven)
    exp.explore("responses", responses)
    exp.explore("compiled", compiled, jobs=4)
