"""C12  first order approximation of decision rules (perturb) and Taylor expansions.

All linear models with coefficients in stated menus: the solution is compared with the one built
from the eigenvectors of the linear system, computed separately; its uniqueness and stability with
the number of stable eigenvalues; models that have no such solution must not look solved.
"""
import itertools
import warnings

import numpy as np
import scipy.linalg
import scipy.optimize

from mc import kit
from mc.kit import dolo, model

from dolo.algos.perturbation import BivariateTaylor
from dolo.numeric.taylor_expansion import TaylorExpansion

_mem = {}
BAR = {"e1": 0.3, "e2": -0.2, "s1": 1.5, "s2": -0.5, "x1": 0.7, "x2": 2.0}


def build(ne, ns, nx, shock):
    """linear model in deviations from a steady state; its coefficients are parameters"""
    key = (ne, ns, nx, shock)
    if key in _mem:
        return _mem[key]
    ex = [f"e{i+1}" for i in range(ne)]
    st = [f"s{i+1}" for i in range(ns)]
    co = [f"x{i+1}" for i in range(nx)]
    par = []

    def lin(name, i, variables, date):
        out = []
        for j, v in enumerate(variables):
            p = f"{name}_{i}{j}"
            par.append(p)
            out.append(f"{p}*({v}[t{date}] - ({BAR[v]}))")
        return " + ".join(out)

    iid = shock == "iid"
    arb = []
    for i in range(nx):
        a = [lin("fs", i, st, ""), lin("fx", i, co, ""), lin("fS", i, st, "+1"), lin("fX", i, co, "+1")]
        if not iid:
            a += [lin("fm", i, ex, ""), lin("fM", i, ex, "+1")]
        arb.append(" + ".join(a))
    tr = []
    for i in range(ns):
        a = [lin("gs", i, st, "-1"), lin("gx", i, co, "-1"), lin("gM", i, ex, "")]
        if not iid:
            a += [lin("gm", i, ex, "-1")]
        tr.append(f"{st[i]}[t] = {BAR[st[i]]} + " + " + ".join(a))
    mu = [BAR[e] for e in ex]
    if shock == "iid":
        sh = f"!Normal\n    Sigma: {np.eye(ne).tolist()}"
    elif shock == "AR1":
        sh = f"!AR1\n    rho: r_00\n    sigma: 0.1\n    mu: {mu[0]}"
    else:
        sh = f"!VAR1\n    rho: [{', '.join('[' + ', '.join(f'r_{i}{j}' for j in range(ne)) + ']' for i in range(ne))}]\n    Sigma: {np.eye(ne).tolist()}\n    mu: {mu}"
    par += [f"r_{i}{j}" for i in range(ne) for j in range(ne)]
    nl = "\n        "
    text = f"""
name: linear
symbols:
    exogenous: [{', '.join(ex)}]
    states: [{', '.join(st)}]
    controls: [{', '.join(co)}]
    parameters: [{', '.join(par)}]
equations:
    arbitrage: |
        {nl.join(arb)}
    transition: |
        {nl.join(tr)}
calibration:
    {(nl[:-4]).join(f"{v}: {BAR[v]}" for v in ex + st + co)}
    {(nl[:-4]).join(f"{p}: 0.5" for p in par)}
exogenous: {sh}
"""
    _mem[key] = model(text)
    return _mem[key]


def calibrated(m, mats):
    d = {}
    for k, M in mats.items():
        M = np.atleast_2d(M)
        for i in range(M.shape[0]):
            for j in range(M.shape[1]):
                d[f"{k}_{i}{j}"] = float(M[i, j])
    m.set_calibration(d)


def reference(G_s, G_x, F_s, F_x, F_S, F_X):
    """-> eigenvalues sorted by modulus, matrix of the most stable solution (or None)"""
    n, k = G_x.shape
    A = np.block([[np.eye(n), np.zeros((n, k))], [F_S, F_X]])
    B = np.block([[G_s, G_x], [-F_s, -F_x]])
    w, V = scipy.linalg.eig(B, A, homogeneous_eigvals=True)
    al, be = np.abs(w)
    if ((al < 1e-9) & (be < 1e-9)).any():
        return None, None, False
    with np.errstate(divide="ignore"):
        lam = al / be
    lam[be < 1e-12 * np.maximum(al, 1e-300)] = np.inf
    o = np.argsort(lam, kind="stable")
    lam, V, w = lam[o], V[:, o], (w[0] * np.conj(w[1]))[o]
    pair = bool(np.isfinite(lam[n]) and abs(w[n - 1].imag) > 1e-3 and abs(w[n - 1] - np.conj(w[n])) < 1e-8)
    V1, V2 = V[:n, :n], V[n:, :n]
    # the stable eigenvectors must span the states
    if np.linalg.svd(np.linalg.qr(V[:, :n])[0][:n], compute_uv=False).min() < 1e-3 or np.linalg.cond(V[:, :n]) > 1e3:
        return lam, None, pair
    return lam, (V2 @ np.linalg.inv(V1)).real, pair


def decide(ch, m, ne_in, mats, tag):
    """mats: G_s, G_x, F_s, F_x, F_S, F_X of the states actually used by the solver"""
    G_s, G_x, F_s, F_x, F_S, F_X = mats
    n = len(G_s)
    lam, C, pair = reference(*mats)
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        err, sol = None, None
        try:
            sol = dolo.perturb(m, verbose=False)
        except Exception as e:
            err = e
    ch.op()
    told = [str(w.message) for w in W if "olution" in str(w.message)]
    ok = ("GeneralizedEigenvaluesError", "GeneralizedEigenvaluesSelectionError", "LinAlgError")
    ch.check(err is None or type(err).__name__ in ok, f"{tag}:exception:{type(err).__name__}", f"{err!r}")
    if lam is None:
        return None  # a singular system: derivatives are not exact enough to see it
    a, b = lam[n - 1], lam[n]
    if pair and a > 1e-3 and abs(a - 1) > 1e-3:
        # one of two complex conjugate eigenvalues cannot be kept without the other
        ch.check(err is not None, f"{tag}:no-gap", f"eigenvalues {lam}: {n} cannot be selected, a solution is returned")
        return None
    if not b - a > 1e-3 * (1 + a) or abs(a - 1) < 1e-3 or abs(b - 1) < 1e-3 or C is None or not np.isfinite(C).all() or a > 1e3:
        return None  # too close to decide, in floating point
    ch.check(err is None, f"{tag}:exception:{type(err).__name__}", f"{err!r} with eigenvalues {lam}, {n} states")
    ch.same((sol.stable, sol.determined, sol.unique), (bool(a < 1), True, bool(b > 1)), f"{tag}:flags", f"moduli of eigenvalues {lam}, {n} states")
    if not (a < 1 < b):
        ch.check(len(told) > 0, f"{tag}:warning", f"no unique stable solution (eigenvalues {lam}, {n} states) and no warning")
        ch.check(("not convergent" in told[0]) == (a > 1), f"{tag}:warning-text", f"{told} with eigenvalues {lam}, {n} states")
    else:
        ch.same(told, [], f"{tag}:no-warning", f"eigenvalues {lam}, {n} states")
    dr = sol.dr
    got = np.concatenate([dr.C_m, dr.C_s], axis=1) if dr.C_m is not None else dr.C_s
    scale = 1 + np.abs(C).max() + (a if np.isfinite(a) else 0)
    ch.close(got / scale, C / scale, f"{tag}:solution", 1e-6, f"eigenvalues {lam}")
    return sol, C


def use(ch, m, sol, C, ne, tag):
    """the rule returned is x_bar + C (z - z_bar) however it is called"""
    ex, st, co = (m.symbols[k] for k in ("exogenous", "states", "controls"))
    mb, sb, xb = (np.array([BAR[v] for v in l]) for l in (ex, st, co))
    dr = sol.dr
    S = sb + np.array([[0.1, -0.3], [0.0, 0.2], [1.0, 1.0]])[:, : len(st)]
    M = mb + np.array([[0.5, 0.1], [-0.2, 0.0], [0.3, 0.7]])[:, : len(ex)]
    f = (lambda m_, s_: xb + np.concatenate([m_ - mb, s_ - sb], axis=-1) @ C.T) if ne else (lambda m_, s_: xb + (s_ - sb) @ C.T)
    tol = 1e-6
    ch.close(dr.eval_ms(M, S), f(M, S), f"{tag}:eval_ms", tol)
    ch.close(dr(M, S), f(M, S), f"{tag}:call", tol)
    ch.close(dr(M[0], S[0]), f(M[0], S[0]), f"{tag}:call1", tol)
    ch.same(np.shape(dr(M[0], S[0])), (len(co),), f"{tag}:shape")
    ch.close(dr(M[0], S), f(M[[0, 0, 0]], S), f"{tag}:one-m", tol)
    ch.close(dr(M, S[1]), f(M, S[[1, 1, 1]]), f"{tag}:one-s", tol)
    if not ne:
        ch.close(dr(S), f(M, S), f"{tag}:call-s", tol)
        ch.close(dr(S[2]), f(M[2], S[2]), f"{tag}:call-s1", tol)
    plain = dolo.perturb(m, verbose=False, details=False)
    ch.close(plain(M, S), f(M, S), f"{tag}:details", tol)
    ch.op(n=7)


def run(exp):
    kit.use_fast()
    exp.assume("linear models with coefficients from the menus of mc/checks/c12.py; solutions with eigenvalues closer than 1e-3 to each other or to the unit circle are executed but not judged")

    def scalar(ch):
        v = exp.q([-1.0, 0.0, 0.5, 2.0], [-2.0, -1.0, 0.0, 0.5, 0.9, 2.0])
        m = build(1, 1, 1, "iid")
        names = ["gs", "gx", "fs", "fx", "fS", "fX"]
        d = {k: ch.pick(k, v) for k in names}
        d["gM"] = 1.0
        calibrated(m, d)
        mats = [np.array([[d[k]]]) for k in names]
        r = decide(ch, m, 0, mats, "scalar")
        ch.state(r is None, tuple(d.values()))
        if r is not None and d["gs"] == 0.5:
            use(ch, m, r[0], r[1], 0, "scalar")

    MAT = {
        (1, 1): [[[0.5]], [[-1.5]], [[0.0]], [[2.0]]],
        (2, 2): [[[0.5, 0.2], [0.0, 0.9]], [[0.6, -0.5], [0.5, 0.6]], [[1.0, 2.0], [-1.0, 1.5]], [[0.0, 0.0], [0.0, 0.0]]],
        (1, 2): [[[0.3, -0.2]], [[0.0, 1.0]], [[0.0, 0.0]]],
        (2, 1): [[[0.3], [-0.2]], [[0.0], [1.0]], [[0.0], [0.0]]],
    }

    def dims(ch):
        ns, nx = ch.pick("dims", [(2, 1), (1, 2), (2, 2)])
        m = build(1, ns, nx, "iid")
        shapes = {"gs": (ns, ns), "gx": (ns, nx), "fs": (nx, ns), "fx": (nx, nx), "fS": (nx, ns), "fX": (nx, nx)}
        k = exp.q(3, 4)
        d = {n: np.array(ch.pick(n, MAT[s][: k if s[0] == s[1] else exp.q(2, 3)])) for n, s in shapes.items()}
        if ch.flag("shift"):
            d["fX"] = d["fX"] * -2.0
        e = dict(d, gM=np.ones((ns, 1)))
        calibrated(m, e)
        r = decide(ch, m, 0, list(d.values()), "dims")
        ch.state(r is None, [x.tolist() for x in d.values()])
        if r is not None:
            use(ch, m, r[0], r[1], 0, "dims")

    def persistent(ch):
        """exogenous VAR1 and AR1"""
        ne, ns, nx = ch.pick("dims", [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2), (2, 2, 2)])
        shock = ch.pick("shock", ["VAR1"] + (["AR1"] if ne == 1 else []))
        m = build(ne, ns, nx, shock)
        rho = np.array(ch.pick("rho", [[[0.8]], [[-0.5]], [[0.0]]] if ne == 1 else [[[0.8, 0.1], [0.0, 0.3]], [[0.5, -0.5], [0.5, 0.5]], [[0.0, 0.6], [0.0, 0.0]]]))
        G_s = np.array([[0.9]]) if ns == 1 else np.array([[0.9, 0.1], [-0.2, 0.5]])
        G_x = np.array([[0.5, -0.1], [0.2, 0.3]])[:ns, :nx]
        F_x = ch.pick("fx", [1.0, -0.8]) * np.array([[1.0, 0.2], [-0.3, 1.2]])[:nx, :nx]
        F_s = np.array([[0.2, 0.1], [0.0, -0.3]])[:nx, :ns]
        F_S = np.array([[0.1, -0.2], [0.3, 0.1]])[:nx, :ns] * ch.pick("fS", [0.0, 1.0])
        F_X = ch.pick("fX", [0.0, 0.5, -0.4]) * np.array([[1.0, -0.3], [0.2, 0.9]])[:nx, :nx]
        z = np.array([[1.0, -0.5], [0.25, 2.0]])
        G_m = z[:ns, :ne] * ch.pick("gm", [0.0, 0.3])
        G_M = z.T[:ns, :ne] * ch.pick("gM", [0.0, 1.0])
        F_m = z[:nx, :ne] * ch.pick("fm", [0.0, 0.7])
        F_M = z.T[:nx, :ne] * ch.pick("fM", [0.0, -0.6])
        calibrated(m, dict(gs=G_s, gx=G_x, fx=F_x, fs=F_s, fS=F_S, fX=F_X, gm=G_m, gM=G_M, fm=F_m, fM=F_M, r=rho))
        mats = [
            np.block([[rho, np.zeros((ne, ns))], [G_m + G_M @ rho, G_s]]),
            np.concatenate([np.zeros((ne, nx)), G_x]),
            np.concatenate([F_m, F_s], axis=1), F_x, np.concatenate([F_M, F_S], axis=1), F_X,
        ]
        r = decide(ch, m, ne, mats, "persistent")
        ch.state(r is None, shock, [x.tolist() for x in mats])
        if r is not None:
            use(ch, m, r[0], r[1], ne, "persistent")

    def nonlinear(ch):
        """example models: the rule solves the linearized equations (derivatives by finite differences)"""
        name = ch.pick("model", ["rbc", "rbc_iid", "rbc_ar1"])
        c = ch.pick("change", [{}, {"alpha": 0.4}, {"delta": 0.05}])
        m = kit.example(name)
        m.set_calibration(c)
        how = ch.pick("steady", ["calibration", "given", "solve"])
        cal = m.calibration
        kw = {}
        if how == "given":
            kw["steady_state"] = {k: np.array(cal[k]) for k in ("exogenous", "states", "controls", "parameters")}
        if how == "solve":
            kw["solve_steady_state"] = True
            # (other parameters may depend on the value of k)
            m.set_calibration(k=float(cal.flat["k"]) * 1.02)
            cal = m.calibration
        with kit.quiet():
            sol = dolo.perturb(m, verbose=False, **kw)
        ch.op()
        e, s, x, p = (np.array(cal[k]) for k in ("exogenous", "states", "controls", "parameters"))
        f, g = m.functions["arbitrage"], m.functions["transition"]
        if how == "solve":
            n_s = len(s)
            ss = scipy.optimize.fsolve(lambda v: np.concatenate([g(e, v[:n_s], v[n_s:], e, p) - v[:n_s], f(e, v[:n_s], v[n_s:], e, v[:n_s], v[n_s:], p)]), np.concatenate([s, x]), xtol=1e-12)
            s, x = ss[:n_s], ss[n_s:]

        def der(fun, args, k, h=1e-5):
            cols = []
            for j in range(len(args[k])):
                up, dn = [a.copy() for a in args], [a.copy() for a in args]
                up[k][j] += h
                dn[k][j] -= h
                cols.append((fun(*up) - fun(*dn)) / (2 * h))
            return np.array(cols).T

        fa, ga = [e, s, x, e, s, x, p], [e, s, x, e, p]
        F_m, F_s, F_x, F_M, F_S, F_X = (der(f, fa, k) for k in range(6))
        G_m, G_s, G_x, G_M = (der(g, ga, k) for k in range(4))
        dr = sol.dr
        if dr.C_m is not None:
            n_e = len(e)
            r = np.atleast_2d(m.exogenous.ρ)
            mats = [np.block([[r, np.zeros((n_e, len(s)))], [G_m + G_M @ r, G_s]]), np.concatenate([np.zeros((n_e, len(x))), G_x]),
                    np.concatenate([F_m, F_s], 1), F_x, np.concatenate([F_M, F_S], 1), F_X]
            got = np.concatenate([dr.C_m, dr.C_s], axis=1)
        else:
            mats = [G_s, G_x, F_s, F_x, F_S, F_X]
            got = dr.C_s
        lam, C, _ = reference(*mats)
        ch.close(got, C, "nonlinear:solution", 1e-4, f"eigenvalues {lam}")
        ch.close(dr(e, s), x, "nonlinear:steady-state", 1e-6)
        ch.check(sol.stable and sol.unique and sol.determined, "nonlinear:flags", f"{sol}")
        ch.state(name, c, how)

    def expansions(ch):
        order = ch.pick("order", [1, 2, 3])
        ns, nx = ch.pick("states", [1, 2, 3]), ch.pick("controls", [1, 2])
        g = np.random.RandomState(ns * 7 + nx)
        s0, x0 = g.rand(ns), g.rand(nx)
        c = [g.rand(*((nx,) + (ns,) * (k + 1))) for k in range(order)]
        te = TaylorExpansion(s0, x0, *c) if ch.flag("args") else TaylorExpansion([s0, x0] + c)
        P = g.rand(3, ns)

        def f(p, rows=slice(None)):
            d = p - s0
            out = x0[rows] + c[0][rows] @ d
            if order > 1:
                out = out + np.einsum("aij,i,j->a", c[1][rows], d, d) / 2
            if order > 2:
                out = out + np.einsum("aijk,i,j,k->a", c[2][rows], d, d, d) / 6
            return out

        W = np.array([f(p) for p in P])
        ch.close(te(P), W, "expansions:call", 1e-12)
        ch.close(te(P[0]), W[0], "expansions:call1", 1e-12)
        ch.close(te.eval_s(P), W, "expansions:eval_s", 1e-12)
        ch.close(te(P, P), W, "expansions:call-ms", 1e-12)
        ch.close(te.eval_ms(P, P), W, "expansions:call-ms", 1e-12)
        one = te[[nx - 1]]
        ch.close(one(P), W[:, [nx - 1]], "expansions:subset", 1e-12)
        ch.op(n=6)
        ch.state(order, ns, nx)

    def refused(ch):
        what = ch.pick("what", ["order", "chain"])
        if what == "order":
            m = build(1, 1, 1, "iid")
            ch.raises(lambda: dolo.perturb(m, order=2, verbose=False), "refused:order", "order 2")
        else:
            m = kit.example("rbc_mc")
            ch.raises(lambda: dolo.perturb(m, verbose=False), "refused:chain", "an exogenous markov chain")
        ch.op()
        ch.state(what)

    exp.explore("scalar", scalar)
    exp.explore("dims", dims)
    exp.explore("persistent", persistent)
    exp.explore("nonlinear", nonlinear)
    exp.explore("expansions", expansions)
    exp.explore("refused", refused, jobs=1)
