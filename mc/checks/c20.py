"""C20  perfect foresight paths.

Every path of stated menus; the equations are written again as functions and checked at every
date of the path, initial and terminal conditions included; linear models are also solved
independently as one stacked linear system.
"""
import contextlib
import io
import itertools
import warnings

import numpy as np
import pandas as pd

from mc import kit
from mc.kit import dolo, model

from dolo.algos.perfect_foresight import deterministic_solve

CAL = {"e": 0.05, "f": -0.1, "k": 0.4, "z": 0.1, "i": 0.2, "n": 0.1}
COEF = {  # linear: constant, own leads and others
    "k": {"1": 0.1, "k-": 0.7, "i-": 0.3, "e": 0.2, "e-": 0.1, "f": -0.1},
    "z": {"z-": 0.6, "e": 0.3, "k-": 0.1, "f-": 0.2},
    "i": {"1": 0.1, "i+": 0.4, "e": 0.3, "k": -0.2, "k+": -0.1, "e+": 0.1, "f": 0.15, "f+": 0.05},
    "n": {"n+": 0.3, "i": 0.3, "z": 0.2, "k": -0.1, "i+": 0.1, "z+": -0.1, "e": -0.2},
}
BOUNDS = {
    "none": {},
    "wide": {"i": (-9, 9), "n": (-9, 9)},
    "binding": {"i": (0.19, 0.23), "n": (-np.inf, 0.12)},
    "lower": {"i": (0.2, np.inf), "n": (0.08, np.inf)},
    "first": {"i": (0.19, 0.23)},
}
_mem = {}


def terms(v, states, controls, exo):
    return {k: c for k, c in COEF[v].items() if k == "1" or k[0] in states + controls + exo}


def text(v, names, nonlinear, shift=0):
    st, co, ex = names
    date = {"": "t", "-": "t-1", "+": "t+1"}
    out = []
    for k, c in terms(v, *names).items():
        out.append(f"({c})" if k == "1" else f"({c})*{k[0]}[{date[k[1:]]}]")
    t = " + ".join(out)
    if nonlinear:
        t += {"k": " - 0.1*k[t-1]^2 + 0.05*i[t-1]*e[t]", "z": " + 0.1*z[t-1]*e[t-1]", "i": " + 0.2*i[t+1]*k[t+1] - 0.1*k[t]^2*e[t]", "n": " - 0.5*n[t]^3 + 0.1*exp(i[t]) - 0.1"}[v]
    return t


def build(dims, n_e, nonlinear, bounds, defs):
    key = (dims, n_e, nonlinear, bounds, defs)
    if key in _mem:
        return _mem[key]
    st, co, ex = ["k", "z"][: dims[0]], ["i", "n"][: dims[1]], ["e", "f"][:n_e]
    names = (st, co, ex)
    arb = []
    for c in co:
        b = BOUNDS[bounds].get(c) if not isinstance(bounds, tuple) else dict([bounds]).get(c)
        arb.append(f"{c}[t] - ({text(c, names, nonlinear)})" + (f" ⟂ {b[0]} <= {c}[t] <= {b[1]}" if b else ""))
    tra = [f"{s}[t] = {text(s, names, nonlinear)}" for s in st]
    nl, il = "\n        ", "\n    "
    _mem[key] = model(f"""
name: path
symbols:
    exogenous: [{', '.join(ex)}]
    states: [{', '.join(st)}]
    controls: [{', '.join(co)}]
    parameters: [beta]
{'definitions: |' + chr(10) + '    y[t] = k[t]^2 + i[t]*e[t]' if defs else ''}
equations:
    arbitrage: |
        {nl.join(arb)}
    transition: |
        {nl.join(tra)}
calibration:
    beta: 0.9
    {il.join(f'{v}: {CAL[v]}' for v in ex + st + co)}
domain:
    {il.join(f'{s}: [-1, 2]' for s in st)}
exogenous: !VAR1
    rho: 0.5
    Sigma: {[[0.01 * (a == b) for b in ex] for a in ex]}
""")
    return _mem[key]


def value(v, names, nonlinear, d0, d1, d2):
    """right hand side; previous, current, next values by name"""
    when = {"": d1, "-": d0, "+": d2}
    out = 0.0
    for k, c in terms(v, *names).items():
        out += c if k == "1" else c * when[k[1:]][k[0]]
    if nonlinear:
        if v == "k":
            out += -0.1 * d0["k"] ** 2 + 0.05 * d0["i"] * d1["e"]
        elif v == "z":
            out += 0.1 * d0["z"] * d0["e"]
        elif v == "i":
            out += 0.2 * d2["i"] * d2["k"] - 0.1 * d1["k"] ** 2 * d1["e"]
        else:
            out += -0.5 * d1["n"] ** 3 + 0.1 * np.exp(d1["i"]) - 0.1
    return out


def stacked(names, eps, s0, T):
    """the linear path, by one dense linear system"""
    st, co, ex = names
    v = st + co
    n = len(v)
    idx = {(t, x): t * n + v.index(x) for t in range(T + 1) for x in v}
    A = np.zeros((n * (T + 1),) * 2)
    b = np.zeros(n * (T + 1))
    shift = {"": 0, "-": -1, "+": 1}
    for t in range(T + 1):
        for x in v:
            r = idx[t, x]
            A[r, r] = 1
            if x in st and t == 0:
                b[r] = s0[st.index(x)]
            elif x in co and t == T:
                A[r, idx[T - 1, x]] = -1
            else:
                for k, c in terms(x, *names).items():
                    if k == "1":
                        b[r] += c
                    elif k[0] in ex:
                        b[r] += c * eps[t + shift[k[1:]], ex.index(k[0])]
                    else:
                        A[r, idx[t + shift[k[1:]], k[0]]] -= c
    return np.linalg.solve(A, b).reshape((T + 1, n))


def run(exp):
    kit.use_fast()
    warnings.simplefilter("ignore", DeprecationWarning)
    exp.assume("models of the family of mc/checks/c20.py: up to two states, controls and shocks")
    DIMS = [(1, 1), (2, 1), (1, 2), (2, 2)]

    def solve(ch, m, **opts):
        """the path, and whether a warning was raised"""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            warnings.simplefilter("ignore", DeprecationWarning)
            with kit.quiet():
                ts = deterministic_solve(m, **{"verbose": False, **opts})
        return ts, [str(k.message) for k in w if k.category is not DeprecationWarning]

    def judge(ch, tag, names, nonlinear, bounds, ts, eps, s0, T, defs, tol=1e-5, keep=False):
        st, co, ex = names
        ch.same(list(ts.columns), st + co + (["y"] if defs else []) + ex, tag + ":columns")
        ch.same(list(ts.index), list(range(-1 if keep else 0, T + 1)), tag + ":index")
        rows = [ts.loc[t].to_dict() for t in range(T + 1)]
        for t in range(T + 1):
            ch.close([rows[t][x] for x in ex], eps[t], tag + ":exogenous", 1e-12, f"date {t}")
        ch.close([rows[0][x] for x in st], s0, tag + ":initial", tol)
        for t in range(T):
            for x in st:
                ch.close(rows[t + 1][x], value(x, names, nonlinear, rows[t], rows[t + 1], None), tag + ":transition", tol, f"{x} at date {t+1}")
            for x in co:
                res = rows[t][x] - value(x, names, nonlinear, None, rows[t], rows[t + 1])
                lo, hi = BOUNDS[bounds].get(x, (-np.inf, np.inf))
                v = rows[t][x]
                ch.check(lo - tol <= v <= hi + tol, tag + ":bounds", f"{x}={v} at date {t}")
                # mixed complementarity
                comp = max(min(res, v - lo), v - hi)
                ch.close(comp, 0.0, tag + ":arbitrage", tol, f"{x} at date {t}: residual {res}")
        for x in co:
            ch.close(rows[T][x], rows[T - 1][x], tag + ":terminal", tol, x)
        if defs:
            for t in ts.index:
                r = ts.loc[t]
                ch.close(r["y"], r["k"] ** 2 + r["i"] * r["e"], tag + ":definitions", 1e-9, f"date {t}")
        if not nonlinear and bounds in ("none", "wide"):
            ch.close(np.array(ts.loc[0:][st + co]), stacked(names, eps, s0, T), tag + ":linear", tol)

    def names_of(dims, n_e):
        return (["k", "z"][: dims[0]], ["i", "n"][: dims[1]], ["e", "f"][:n_e])

    def steady(names, nonlinear, m):
        """steady state, by independent iterations"""
        st, co, ex = names
        v = st + co
        from scipy.optimize import fsolve

        def f(x):
            d = {**dict(zip(v, x)), **dict(zip(ex, m))}
            return [d[k] - value(k, names, nonlinear, d, d, d) for k in v]

        return fsolve(f, [CAL[k] for k in v], xtol=1e-13)

    SERIES = {
        "constant": [[0.1], [0.1]],
        "late": [[0.05, 0.05, 0.2], [-0.1, -0.1, 0.0]],
        "early": [[0.0, 0.2, 0.1], [-0.1, 0.1, 0.2]],
        "wave": [[0.1, -0.1, 0.2, 0.0], [0.0, 0.1, -0.1, 0.05]],
        "full": [[0.1, 0.0, 0.05, -0.1], [0.0, 0.0, 0.1, 0.1]],
    }

    def paths(ch):
        """formats of the paths of shocks"""
        dims = ch.pick("dims", DIMS)
        n_e = ch.pick("shocks", [1, 2])
        nonlinear = ch.flag("nonlinear")
        T = ch.pick("T", exp.q([3, 8], [1, 2, 3, 8, 20]))
        kind = ch.pick("series", list(SERIES))
        fmt = ch.pick("format", ["2d", "1d", "list", "dict", "dict-one", "dict-lengths", "frame", "deprecated"])
        keep = ch.flag("keep")
        defs = ch.flag("definitions")
        if fmt == "1d" and n_e == 2:
            ch.prune()
        names = names_of(dims, n_e)
        m = build(dims, n_e, nonlinear, "none", defs)
        ser = [list(x) for x in SERIES[kind][:n_e]]
        if kind == "full":
            ser = [(x * 10)[: T + 1] for x in ser]
        else:
            ser = [x[: T + 1] for x in ser]
        ex = names[2]
        if fmt == "2d":
            arg = np.array(ser).T
        elif fmt == "1d":
            arg = np.array(ser[0])
        elif fmt == "list":
            arg = [list(x) for x in zip(*ser)]
        elif fmt == "dict":
            arg = dict(zip(ex, ser))
        elif fmt == "dict-one":
            arg = {ex[-1]: ser[-1]}
            if n_e == 2:
                ser[0] = [CAL["e"]]
        elif fmt == "dict-lengths":
            ser[0] = ser[0][:1]
            arg = dict(zip(ex, [np.array(x) for x in ser]))
        else:
            arg = pd.DataFrame(dict(zip(ex, ser)))
        eps = np.zeros((T + 1, n_e))
        for j, x in enumerate(ser):
            eps[: len(x), j] = x
            eps[len(x) :, j] = x[-1]
        before = str(arg)
        opts = {"shocks" if fmt == "deprecated" else "exogenous": arg}
        ts, w = solve(ch, m, T=T, keep_steady_state=keep, tol=1e-9, **opts)
        ch.op(n=T + 1)
        ch.same(str(arg), before, "paths:argument")
        if fmt != "deprecated":
            ch.same(w, [], "paths:warning")
        ss = steady(names, nonlinear, eps[0])
        judge(ch, "paths", names, nonlinear, "none", ts, eps, ss[: dims[0]], T, defs, keep=keep)
        if keep:
            ch.close(np.array(ts.loc[-1][names[0] + names[1]]), ss, "paths:steady", 1e-6)
            ch.close(np.array(ts.loc[-1][ex]), eps[0], "paths:steady", 1e-12)
        ch.state(dims, n_e, nonlinear, T, kind, fmt, keep, defs)

    def initial(ch):
        """initial states"""
        dims = ch.pick("dims", DIMS)
        n_e = ch.pick("shocks", [1, 2])
        nonlinear = ch.flag("nonlinear")
        T = ch.pick("T", exp.q([4], [1, 4, 12]))
        path = ch.flag("path")
        s0 = ch.pick("s0", ["none", "array", "dict", "partial", "list", "deprecated"])
        m0 = ch.pick("m0", ["none", "array", "dict"]) if not path else "none"
        bounds = ch.pick("bounds", ["none", "wide"])
        names = names_of(dims, n_e)
        st, co, ex = names
        m = build(dims, n_e, nonlinear, bounds, False)
        cal = np.array([CAL[x] for x in ex])
        eps = np.tile(cal, (T + 1, 1))
        opts = {}
        if path:
            opts["exogenous"] = {"e": [0.1, 0.0]}
            eps[:, 0] = 0
            eps[0, 0] = 0.1
            start = steady(names, nonlinear, eps[0])[: dims[0]]
        else:
            start = np.array([CAL[x] for x in st])
        if m0 != "none":
            v = np.array([0.2, 0.1])[:n_e]
            eps[0] = v
            opts["m0"] = v if m0 == "array" else dict(zip(ex, v))
        new = np.array([0.6, -0.1])[: dims[0]]
        if s0 == "partial":
            opts["s0"] = {st[-1]: 0.3}
            start = np.array([CAL[x] for x in st])
            start[-1] = 0.3
        elif s0 != "none":
            start = new
            opts["s1" if s0 == "deprecated" else "s0"] = {"array": new.copy(), "dict": dict(zip(st, new)), "list": list(new), "deprecated": new.copy()}[s0]
        ts, w = solve(ch, m, T=T, tol=1e-9, **opts)
        ch.op(n=T + 1)
        judge(ch, "initial", names, nonlinear, bounds, ts, eps, start, T, False)
        ch.state(dims, n_e, nonlinear, path, s0, m0, bounds)

    def bounded(ch):
        """complementarity along the path"""
        dims = ch.pick("dims", DIMS)
        nonlinear = ch.flag("nonlinear")
        bounds = ch.pick("bounds", list(BOUNDS))
        solver = ch.pick("solver", ["ncpsolve", "lmmcp"])
        ignore = ch.flag("ignore")
        T = ch.pick("T", exp.q([6], [2, 6, 15]))
        kind = ch.pick("start", ["low", "high", "path", "wave"])
        guess = ch.pick("guess", ["none", "frame", "kept", "array"])
        verbose = ch.flag("verbose")
        names = names_of(dims, 1)
        st, co, ex = names
        m = build(dims, 1, nonlinear, bounds, False)
        eps = np.full((T + 1, 1), CAL["e"])
        opts = {}
        if kind in ("low", "high"):
            start = np.array([0.1, -0.3] if kind == "low" else [0.9, 0.5])[: dims[0]]
            opts["s0"] = start
        else:
            ser = [0.0, 0.3] if kind == "path" else [0.1, -0.3, 0.4, 0.0]
            ser = ser[: T + 1]
            opts["exogenous"] = {"e": ser}
            eps[: len(ser), 0] = ser
            eps[len(ser) :, 0] = ser[-1]
            start = steady(names, nonlinear, eps[0])[: dims[0]]
        if guess != "none":
            g = np.zeros((T + 1, len(st + co)))
            g[:, :] = [CAL[x] for x in st + co]
            g[:, 0] += 0.05 * np.sin(np.arange(T + 1))
            if guess == "frame":
                opts["initial_guess"] = pd.DataFrame(g[:, ::-1], columns=(st + co)[::-1])
            elif guess == "kept":
                opts["initial_guess"] = pd.DataFrame(np.vstack([g[:1], g]), columns=st + co, index=range(-1, T + 1))
            else:
                opts["initial_guess"] = g
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ts = deterministic_solve(m, T=T, solver=solver, ignore_constraints=ignore, tol=1e-9, verbose=verbose, **opts)
        ch.op(n=T + 1)
        w = [str(k.message) for k in w if k.category is not DeprecationWarning]
        if not verbose:
            ch.same(buf.getvalue(), "", "bounded:silent")
        judged = "none" if ignore else bounds
        if not any("onverge" in k for k in w):
            judge(ch, "bounded", names, nonlinear, judged, ts, eps, start, T, False)
        else:
            ch.check(not (judged in ("none", "wide") and solver == "ncpsolve"), "bounded:unsolved", str(w))
        ch.state(dims, nonlinear, bounds, solver, ignore, kind)

    def refused(ch):
        """what is not supported is refused"""
        case = ch.pick("case", ["state bounds", "shock bounds", "half infinite", "too long", "unknown state", "unknown shock"])
        T = ch.pick("T", [3, 6])
        start = ch.pick("start", ["steady", "moved", "path"])
        opts = {}
        if start == "moved":
            opts["s0"] = np.array([0.8])
        elif start == "path":
            opts["exogenous"] = {"e": [CAL["e"], 0.3]}
        if case == "state bounds":
            m = build((1, 1), 1, False, ("i", ("-1", "0.2 + 0.3*k[t]")), False)
        elif case == "shock bounds":
            m = build((1, 1), 1, False, ("i", ("0.1*e[t]", "inf")), False)
            if start != "path":
                ch.prune()
        elif case == "half infinite":
            m = build((1, 2), 1, False, ("n", ("0.1*k[t] - 9", "inf")), False)
        elif case == "too long":
            m = build((1, 1), 1, False, "none", False)
            opts["exogenous"] = np.linspace(0, 0.1, T + 2 + (start == "path"))
        elif case == "unknown state":
            m = build((1, 1), 1, False, "none", False)
            opts["s0"] = {"q": 1.0}
        else:
            m = build((1, 1), 1, False, "none", False)
            if start == "path":
                ch.prune()
            opts["m0"] = {"q": 1.0}
        if case in ("state bounds", "half infinite") and start == "steady":
            # nothing moves: bounds are constant if this is a steady state
            opts["s0"] = np.array([0.41])
        with kit.quiet():
            ch.raises(lambda: deterministic_solve(m, T=T, verbose=False, **opts), "refused:" + case)
        ch.op()
        ch.state(case, T, start)

    def unsolved(ch):
        """a path which does not solve the equations is not returned silently"""
        solver = ch.pick("solver", ["ncpsolve", "newton"])
        maxit = ch.pick("maxit", [0, 1, 2, 3])
        dims = ch.pick("dims", DIMS)
        kind = ch.pick("s0", [[0.1, -0.3], [1.5, 1.0]])
        tol = ch.pick("tol", [1e-6, 1e-10])
        names = names_of(dims, 1)
        m = build(dims, 1, True, "binding", False)
        T = 5
        ts, w = solve(ch, m, T=T, s0=np.array(kind[: dims[0]]), maxit=maxit, tol=tol, ignore_constraints=solver == "newton")
        ch.op(n=maxit)
        if not any("onverge" in k for k in w):
            judge(ch, "unsolved", names, True, "none" if solver == "newton" else "binding", ts, np.full((T + 1, 1), CAL["e"]), kind[: dims[0]], T, False, tol=30 * tol)
        ch.state(solver, maxit, dims, kind, tol)

    for d, e, nl, b, df in itertools.product(DIMS, [1, 2], [False, True], BOUNDS, [False, True]):
        if (df and b != "none") or (e == 2 and b not in ("none", "wide")):
            continue
        build(d, e, nl, b, df)
    for b in [("i", ("-1", "0.2 + 0.3*k[t]")), ("i", ("0.1*e[t]", "inf"))]:
        build((1, 1), 1, False, b, False)
    build((1, 2), 1, False, ("n", ("0.1*k[t] - 9", "inf")), False)
    exp.explore("paths", paths)
    exp.explore("initial", initial)
    exp.explore("bounded", bounded)
    exp.explore("refused", refused)
    exp.explore("unsolved", unsolved)
