"""C11  decision rules: interpolation and calling conventions.

All combinations of exogenous grid (none, markov states, cartesian), endogenous grid, method and
number of controls; values at nodes, between nodes (multilinear interpolation and natural tensor
splines recomputed independently) and every way to call the rule.
"""
import itertools

import numpy as np
from scipy.interpolate import CubicSpline

from mc import kit
from mc.kit import dolo, model

from dolo.numeric.decision_rule import ConstantDecisionRule, CustomDR, DecisionRule
from dolo.numeric.grids import EmptyGrid, NonUniformCartesianGrid, UniformCartesianGrid, UnstructuredGrid
from dolo.numeric.processes import GDP, MarkovChain

SIZES = {1: [(2,), (3,), (5,)], 2: [(2, 3), (4, 2), (3, 5)], 3: [(2, 3, 4), (4, 3, 2)]}
BOUNDS = [(0.0, 1.0), (-1.0, 3.0), (2.0, 2.5), (10.0, 14.0)]
UNEVEN = [[0.0, 0.1, 1.0], [-1.0, 2.0, 2.5, 3.0], [2.0, 2.4]]


def axes(kind, n, shift=0):
    if kind == "uneven":
        return [np.array(UNEVEN[(k + shift) % 3]) for k in range(len(n))]
    return [np.linspace(*BOUNDS[(k + shift) % 4], n[k]) for k in range(len(n))]


def grid(kind, ax):
    if kind == "uneven":
        return NonUniformCartesianGrid(ax)
    return UniformCartesianGrid([a[0] for a in ax], [a[-1] for a in ax], [len(a) for a in ax])


def product(ax):
    return np.array(list(itertools.product(*ax)))


def values(pts, n_x, k=0):
    """something that is not affine, differs for each control and each k, computed at points"""
    w = np.arange(1, pts.shape[1] + 1)
    out = [np.sin((j + 1) * (pts @ w) / 3.0 + k) + (j + 1) * pts[:, -1] + 0.3 * k + 0.1 * pts[:, 0] ** 2 for j in range(n_x)]
    return np.column_stack(out)


def lin1(ax, v, x):
    """piecewise linear interpolation of v (first dimension) at scalar x, linear outside"""
    i = int(np.clip(np.searchsorted(ax, x, side="right") - 1, 0, len(ax) - 2))
    t = (x - ax[i]) / (ax[i + 1] - ax[i])
    return (1 - t) * v[i] + t * v[i + 1]


def cub1(ax, v, x):
    return CubicSpline(ax, v, bc_type="natural", axis=0)(x)


def interp(method, ax, v, x):
    f = lin1 if method == "linear" else cub1
    for a, c in zip(ax, x):
        v = f(a, v, c)
    return v


def inside(ax, k):
    """points strictly inside cells, nodes and borders, mixed differently for each k"""
    out = []
    for j, a in enumerate(ax):
        c = [a[0], a[-1], 0.5 * (a[0] + a[1]), a[-2] + 0.3 * (a[-1] - a[-2]), a[len(a) // 2], a[0] + 0.11 * (a[-1] - a[0]), a[0] + 0.83 * (a[-1] - a[0])]
        out.append(c[(k * (j + 1) + j) % len(c)])
    return np.array(out)


def run(exp):
    kit.use_fast()
    exp.assume("grids of the sizes listed in mc/checks/c11.py; evaluation points lie inside the grids")
    dmax = exp.q(3, 4)
    # compiled once, shared by the workers
    for d in range(1, dmax + 1):
        for m in ("linear", "cubic"):
            a = axes("even", (3,) * d)
            r = DecisionRule(EmptyGrid(), grid("even", a), m, values=np.zeros((1, 3 ** d, 1)))
            r.eval_s(np.zeros((1, d)))
        if d < 4:
            a = axes("uneven", (3,) * d)
            g = grid("uneven", a)
            DecisionRule(EmptyGrid(), g, "linear", values=np.zeros((1, g.n_nodes, 1))).eval_s(np.zeros((1, d)))

    def rules(ch):
        exo = ch.pick("exo", ["none", "states", "cartesian"])
        de = ch.pick("exo dim", [1, 2]) if exo != "none" else 0
        d = ch.pick("dim", [1, 2, 3])
        if (de if exo == "cartesian" else 0) + d > dmax:
            ch.prune()
        kind = ch.pick("grid", ["even", "uneven"])
        n = ch.pick("n", SIZES[d] if kind == "even" else SIZES[d][:1])
        method = ch.pick("method", ["linear", "cubic", "multilinear"] if kind == "even" else ["linear"])
        n_x = ch.pick("controls", [1, 2, 3])
        how = "cubic" if method == "cubic" else "linear"
        ax = axes(kind, n)
        endo = grid(kind, ax)
        S = product(ax)
        ch.close(endo.nodes, S, "rules:nodes", 1e-12)
        if exo == "none":
            eg, M, n_m, dp = EmptyGrid(), [None], 1, None
            eax = []
        elif exo == "states":
            M = np.array([[0.3, -1.0], [0.3, 2.0], [5.0, 4.0]])[: ch.pick("states", [1, 2, 3]), :de]
            n_m = len(M)
            dp = MarkovChain(np.full((n_m, n_m), 1 / n_m), M)
            eg = dp.grid
        else:
            en = ch.pick("exo n", [(2, 3), (4, 2)])[:de]
            eax = axes(kind, en, 1)
            eg = grid(kind, eax)
            M = product(eax)
            n_m = len(M)
            inodes = np.array([[inside(eax, i + 2 * j) for j in range(2)] for i in range(n_m)])
            dp = GDP(M, inodes, np.full((n_m, 2), 0.5), grid=eg)
        if exo == "cartesian":
            V = np.array([values(np.column_stack([np.repeat(m[None, :], len(S), 0), S]), n_x) for m in M])
        else:
            V = np.array([values(S, n_x, k) for k in range(n_m)])
        keep = V.copy()
        if ch.flag("later"):
            dr = DecisionRule(eg, endo, method, dprocess=dp, values=0 * V - 7)
            dr.set_values(V)
        else:
            dr = DecisionRule(eg, endo, method, dprocess=dp, values=V)
        ch.op()
        ch.close(V, keep, "rules:argument", 0)
        V[...] = np.nan  # the rule has its own copy
        shape = tuple(len(a) for a in ax)

        def want(i, m, s):
            if exo == "cartesian":
                return interp(how, eax + ax, keep.reshape(tuple(len(a) for a in eax) + shape + (n_x,)), np.concatenate([m, s]))
            return interp(how, ax, keep[i].reshape(shape + (n_x,)), s)

        pts = np.array([inside(ax, k) for k in range(7)])
        tol = 1e-9
        for i in range(n_m):
            m = None if exo == "none" else np.array(M[i])
            # nodes
            ch.close(dr.eval_is(i, S), keep[i], "rules:at-nodes", tol, f"state {i}")
            W = np.array([want(i, m, s) for s in pts])
            ch.close(dr.eval_is(i, pts), W, "rules:eval_is", tol, f"{method} state {i}")
            ch.close(dr(i, pts), W, "rules:call-is", tol)
            ch.close(dr(np.int64(i), pts[3]), W[3], "rules:call-is1", tol)
            ch.close(dr(i, pts[4].tolist()), W[4], "rules:call-list", tol)
            ch.same(np.shape(dr(i, pts[3])), (n_x,), "rules:shape1")
            ch.same(np.shape(dr(i, pts[:1])), (1, n_x), "rules:shape2")
            ch.op(n=6)
            if exo == "states":
                for j in range(n_m):
                    Wj = np.array([want(j, None, s) for s in pts])
                    ch.close(dr.eval_ijs(i, j, pts), Wj, "rules:eval_ijs", tol, "value in the next state")
            if exo == "cartesian":
                for j in range(2):
                    Wj = np.array([want(None, inodes[i, j], s) for s in pts])
                    ch.close(dr.eval_ijs(i, j, pts), Wj, "rules:eval_ijs", tol, "value at the next point")
                ch.close(dr(m, pts), W, "rules:one-m", tol)
                ch.close(dr.eval_ms(m[None, :], pts), W, "rules:one-m", tol)
                ch.close(dr.eval_ms(np.repeat(m[None, :], 7, 0), pts), W, "rules:eval_ms", tol)
                ch.op(n=3)
        if exo == "cartesian":
            mm = np.array([inside(eax, k + 1) for k in range(7)])
            W = np.array([want(None, m, s) for m, s in zip(mm, pts)])
            ch.close(dr.eval_ms(mm, pts), W, "rules:eval_ms", tol)
            ch.close(dr(mm, pts), W, "rules:call-ms", tol)
            ch.close(dr(mm[2], pts[2]), W[2], "rules:call-ms1", tol)
            W = np.array([want(None, m, pts[5]) for m in mm])
            ch.close(dr(mm, pts[5]), W, "rules:one-s", tol)
            ch.close(dr.eval_ms(mm, pts[5][None, :]), W, "rules:one-s", tol)
        if exo == "none":
            W = np.array([want(0, None, s) for s in pts])
            ch.close(dr(pts), W, "rules:call-s", tol)
            ch.close(dr(pts[1]), W[1], "rules:call-s1", tol)
            ch.close(dr.eval_s(pts), W, "rules:eval_s", tol)
            ch.close(dr.eval_ms(np.zeros((7, 2)), pts), W, "rules:any-m", tol)
            ch.close(dr(np.zeros(2), pts), W, "rules:any-m", tol)
            ch.close(dr(np.zeros((7, 2)), pts[2]), np.repeat(W[2][None, :], 7, 0), "rules:any-m", tol)
            ch.close(dr.eval_ijs(1, 2, pts), W, "rules:eval_ijs", tol)
        # integers are indices only when they are alone
        if exo == "cartesian" and kind == "even" and de == 1:
            q = int(np.ceil(eax[0][0]))
            if q <= eax[0][-1]:
                ch.close(dr(np.array([q]), pts[0]), want(None, np.array([float(q)]), pts[0]), "rules:integer-m", tol)
        ch.state(exo, de, n, kind, method, n_x, n_m)

    def affine(ch):
        """affine rules are reproduced by all methods, also by rules on sums of grids"""
        d = ch.pick("dim", [1, 2, 3] if dmax < 4 else [1, 2, 3, 4])
        n = [ch.pick(f"n{k}", [2, 3, 4]) for k in range(d)]
        method = ch.pick("method", ["linear", "cubic"])
        ax = axes("even", n, ch.pick("bounds", [0, 1]))
        A = np.array([[1.0, -2.0, 0.5, 3.0], [0.0, 1.0, 1.0, -1.0]])[:, :d]
        f = lambda s: s @ A.T + np.array([1.0, -4.0])
        split = ch.pick("exo dims", range(d))
        if split:
            eg, g = grid("even", ax[:split]), grid("even", ax[split:])
            vals = f(product(ax)).reshape((eg.n_nodes, g.n_nodes, 2))
        else:
            eg, g = EmptyGrid(), grid("even", ax)
            vals = f(product(ax))[None]
        dr = DecisionRule(eg, g, method, values=vals)
        P = np.array([inside(ax, k) for k in range(7)])
        got = dr.eval_ms(P[:, :split], P[:, split:]) if split else dr.eval_s(P)
        ch.op()
        ch.close(got, f(P), "affine", 1e-9, f"{method} on {n}")
        ch.state(d, n, method, split)

    def refused(ch):
        what = ch.pick("method", ["spline", "Cubic", "", None])
        ch.raises(lambda: DecisionRule(EmptyGrid(), grid("even", axes("even", (3,))), what), "refused", f"interpolation {what!r}")
        ch.op()
        ch.state(what)

    TXT = """
name: small
symbols:
    exogenous: [{ex}]
    states: [{st}]
    controls: [{co}]
    parameters: [a, b]
equations:
    arbitrage: |
        i[t] - k[t]
        n[t] - z[t]
    transition: |
        {t0}
        {t1}
calibration:
    a: 0.7
    b: 2*a
    e: 0
    u: 0
    z: 1
    k: 2
    i: 0
    n: 0
domain:
    z: [0, 2]
    k: [1, 3]
exogenous: {shock}
options:
    grid: !Cartesian
        n: [3, 4]
"""
    SHOCK = {
        "iid": "!Normal\n    Sigma: [[0.04, 0.0],[0.0, 0.09]]",
        "mc": "!MarkovChain\n    values: [[-0.1, 0.3],[0.2, 0.4],[0.5, -0.7]]\n    transitions: [[0.2,0.5,0.3],[0.0,0.5,0.5],[1.0,0.0,0.0]]",
    }
    BODY = {
        "plain": ({"i": "a*k + e", "n": "z*u - b"}, lambda e, u, z, k, a, b: (a * k + e, z * u - b)),
        "dated": ({"i": "a*k(0) + e(0)", "n": "z(0)*u - b"}, lambda e, u, z, k, a, b: (a * k + e, z * u - b)),
        "pre": ({"q": "k*k", "i": "q - r*e", "n": "r", "r": "q + u*a"}, lambda e, u, z, k, a, b: (k * k - (k * k + u * a) * e, k * k + u * a)),
        "chain": ({"r1": "r2 + 1", "r2": "r3*z", "r3": "exp(u)", "n": "r1", "i": "r2 - r1 + k**2"}, lambda e, u, z, k, a, b: (k ** 2 - 1, np.exp(u) * z + 1)),
        "constant": ({"i": "0.5", "n": "a"}, lambda e, u, z, k, a, b: (0.5 + 0 * k, a + 0 * k)),
        "one": ({"i": "min(k, z)", "n": "e"}, lambda e, u, z, k, a, b: (np.minimum(k, z), e)),
    }

    def custom(ch):
        st = ch.pick("states", [("z", "k"), ("k", "z")])
        co = ch.pick("controls", [("i", "n"), ("n", "i")])
        ex = ch.pick("exogenous", [("e", "u"), ("u", "e")])
        sh = ch.pick("shock", list(SHOCK))
        body = ch.pick("body", [b for b in BODY if b != "one"])
        eqs = {"z": "z[t] = z[t-1] + e[t]", "k": "k[t] = k[t-1] + i[t-1]"}
        m = model(TXT.format(ex=", ".join(ex), st=", ".join(st), co=", ".join(co), t0=eqs[st[0]], t1=eqs[st[1]], shock=SHOCK[sh]))
        a = 0.7
        if ch.flag("recalibrated"):
            a = 0.25
            m.set_calibration(a=a)
        text, f = BODY[body]
        text = dict(text)
        if ch.flag("reversed"):
            text = dict(reversed(list(text.items())))
        keep = dict(text)
        dr = CustomDR(text, m)
        ch.op()
        ch.same(text, keep, "custom:argument")

        def want(M, Sx):
            d = dict(zip(ex, M.T))
            d.update(zip(st, Sx.T))
            i, n = f(d["e"], d["u"], d["z"], d["k"], a, 2 * a)
            r = {"i": i, "n": n}
            return np.column_stack([r[c] for c in co])

        M = np.array([[0.1, -0.2], [0.3, 0.5], [-0.4, 0.25]])
        Sx = np.array([[1.0, 2.0], [0.3, 0.1], [2.5, -1.0]])
        W = want(M, Sx)
        ch.close(dr.eval_ms(M, Sx), W, "custom:eval_ms", 1e-12)
        ch.close(dr(M, Sx), W, "custom:call", 1e-12)
        ch.close(dr(M[1], Sx[1]), W[1], "custom:call1", 1e-12)
        ch.same(np.shape(dr(M[1], Sx[1])), (2,), "custom:shape1")
        ch.close(dr(M[1], Sx), want(M[[1, 1, 1]], Sx), "custom:one-m", 1e-12)
        ch.close(dr(M, Sx[2]), want(M, Sx[[2, 2, 2]]), "custom:one-s", 1e-12)
        if sh == "mc":
            for i in range(3):
                mi = m.exogenous.values[[i, i, i]]
                ch.close(dr(i, Sx), want(mi, Sx), "custom:index", 1e-12)
                ch.close(dr.eval_is(i, Sx), want(mi, Sx), "custom:index", 1e-12)
                ch.close(dr(i, Sx[0]), want(mi, Sx)[0], "custom:index1", 1e-12)
        ch.op(n=6)
        ch.state(st, co, ex, sh, body, a)

    def constant(ch):
        n_x = ch.pick("controls", [1, 2, 3])
        x0 = np.array([0.5, -1.0, 2.0])[:n_x]
        d = ch.pick("dim", [1, 2])
        N = ch.pick("N", [1, 3])
        dr = ConstantDecisionRule(x0)
        s = np.arange(N * d).reshape((N, d)) / 3.0
        W = np.repeat(x0[None, :], N, axis=0)
        for got in (dr(s), dr(0, s), dr(np.zeros((N, 1)), s), dr(np.zeros(1), s), dr.eval_s(s), dr.eval_is(1, s), dr.eval_ms(np.zeros((N, 1)), s)):
            ch.close(got, W, "constant", 0)
        for got in (dr(s[0]), dr(2, s[0]), dr(np.zeros(1), s[0])):
            ch.close(got, x0, "constant:one", 0)
        ch.op(n=10)
        ch.state(n_x, d, N)

    def compiled(ch):
        """the custom rule compiled by numba"""
        body = ch.pick("body", ["pre", "plain"])
        with kit.real():
            m = model(TXT.format(ex="e, u", st="z, k", co="i, n", t0="z[t] = z[t-1] + e[t]", t1="k[t] = k[t-1] + i[t-1]", shock=SHOCK["mc"]))
            text, f = BODY[body]
            dr = CustomDR(text, m)
            M = np.array([[0.1, -0.2], [0.3, 0.5], [-0.4, 0.25]])
            Sx = np.array([[1.0, 2.0], [0.3, 0.1], [2.5, -1.0]])
            W = np.column_stack(f(M[:, 0], M[:, 1], Sx[:, 0], Sx[:, 1], 0.7, 1.4))
            ch.close(dr(M, Sx), W, "compiled", 1e-12)
            ch.close(dr(M[0], Sx[0]), W[0], "compiled", 1e-12)
            ch.close(dr(1, Sx), np.column_stack(f(0.2, 0.4, Sx[:, 0], Sx[:, 1], 0.7, 1.4)), "compiled", 1e-12)
        ch.op(n=3)
        ch.state(body)

    exp.explore("rules", rules)
    exp.explore("affine", affine)
    exp.explore("refused", refused, jobs=1)
    exp.explore("custom", custom)
    exp.explore("constant", constant, jobs=1)
    exp.explore("compiled", compiled, jobs=2)
