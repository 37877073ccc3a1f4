"""C14  Newton and complementarity solvers.

All problems of small families with a known solution, one by one and by pairs, for all
starting points of a menu and all formats of jacobians: what is returned without a warning
or an error solves the problem, and the problems of the families are solved.
"""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from mc import kit
from mc.kit import dolo

from dolo.numeric.extern.lmmcp import lmmcp
from dolo.numeric.optimize.ncpsolve import ncpsolve
from dolo.numeric.optimize.newton import newton

inf = np.inf

# name -> (f, df, roots)
SCALAR = {
    "linear": (lambda x: 2 * x - 1, lambda x: 2 + 0 * x, [0.5]),
    "down": (lambda x: 3 - 0.5 * x, lambda x: -0.5 + 0 * x, [6.0]),
    "square": (lambda x: x**2 - 2, lambda x: 2 * x, [-(2**0.5), 2**0.5]),
    "cube": (lambda x: x**3 + x - 10, lambda x: 3 * x**2 + 1, [2.0]),
    "exp": (lambda x: np.exp(x) - 3, lambda x: np.exp(x), [np.log(3)]),
    "atan": (lambda x: np.arctan(x - 1), lambda x: 1 / (1 + (x - 1) ** 2), [1.0]),
    "none": (lambda x: x**2 + 1, lambda x: 2 * x, []),
}
# unknown -> (function, jacobian) in two dimensions
def _pair(x, y):
    return np.array([x + 2 * y - 4, x * y - 2 + x]), np.array([[1.0, 2.0], [y + 1, x]])


MATRICES = {
    "diag": [[2.0, 0.0], [0.0, 1.0]],
    "plus": [[2.0, 1.0], [1.0, 2.0]],
    "minus": [[2.0, -1.0], [-1.0, 2.0]],
    "upper": [[1.0, 2.0], [0.0, 1.0]],
    "rotation": [[1.0, -2.0], [2.0, 1.0]],
}
BOUNDS = {
    "free": (-inf, inf),
    "big": (-1e20, 1e20),
    "lower": (0.0, inf),
    "upper": (-inf, 1.0),
    "both": (0.0, 1.0),
    "point": (0.5, 0.5),
}


def mcp(A, q, lb, ub):
    """the solution of A x + q complementary to lb <= x <= ub, by enumeration"""
    n = len(q)
    found = []
    for act in itertools.product("lfu", repeat=n):
        x = np.zeros(n)
        free = [k for k in range(n) if act[k] == "f"]
        if any((act[k] == "l" and lb[k] < -1e10) or (act[k] == "u" and ub[k] > 1e10) for k in range(n)):
            continue
        for k in range(n):
            if act[k] != "f":
                x[k] = lb[k] if act[k] == "l" else ub[k]
        if free:
            r = -(A @ x + q)[free]
            x[free] = np.linalg.solve(A[np.ix_(free, free)], r)
        F = A @ x + q
        if (x < lb - 1e-10).any() or (x > ub + 1e-10).any():
            continue
        if all((a == "f") or (a == "l" and v >= -1e-10) or (a == "u" and v <= 1e-10) for a, v in zip(act, F)):
            found.append(x)
    return found


def run(exp):
    exp.assume("problems of the families of mc/checks/c14.py, up to two unknowns per problem and two problems at a time")

    def call(fun, *args, **kw):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            with np.errstate(all="ignore"), kit.quiet():
                res = fun(*args, **kw)
        return res, any("onverge" in str(e.message) for e in w)

    def newton_scalar(ch):
        jac = ch.pick("jactype", ["serial", "full", "sparse"])
        k = ch.pick("n", [1, 2, 3])
        names = [ch.pick(f"f{i}", list(SCALAR)) for i in range(k)] if k < 3 else ["exp", "cube", ch.pick("f", list(SCALAR))]
        x0 = np.array([ch.pick(f"x{i}", exp.q([-0.5, 1.0, 3.0], [-0.5, 1.0, 1.5, 3.0])) for i in range(k)])
        tol = ch.pick("tol", exp.q([1e-8], [1e-8, 1e-4]))
        maxit = ch.pick("maxit", [60, 2, 0])

        def vals(z):
            return (np.array([SCALAR[n][0](v) for n, v in zip(names, z)]),
                    np.array([SCALAR[n][1](v) for n, v in zip(names, z)]))

        def f(x):
            v, d = vals(x.ravel())
            if jac == "serial":
                return [v[:, None], d[:, None, None]]
            return [v, np.diag(d) if jac == "full" else sp.csc_matrix(np.diag(d))]

        start = x0[:, None] if jac == "serial" else x0
        keep = start.copy()
        try:
            (x, it), warned = call(newton, f, start, tol=tol, maxit=maxit, jactype=jac)
        except Exception as e:
            # the derivative of that one may vanish
            ch.check("none" in names and "rror" in str(e) or "ingular" in str(e), "newton:exception", f"{names}: {e!r}")
            return
        ch.op()
        ch.close(start, keep, "newton:argument", 0)
        ch.same(x.shape, start.shape, "newton:shape")
        ch.check(it <= maxit, "newton:maxit", f"{it}")
        err = abs(vals(x.ravel())[0]).max()
        if not warned:
            ch.check(err < tol, "newton:silent-failure", f"{names}: residual {err} without a warning")
        if "none" in names:
            ch.check(warned, "newton:silent-failure", f"{names} has no solution")
        elif maxit == 60:
            ch.check(not warned, "newton:convergence", f"{names}: {x.ravel()}")
            for n, v in zip(names, x.ravel()):
                d = min(abs(v - r) for r in SCALAR[n][2])
                ch.check(d < 100 * tol, "newton:solution", f"{n}: {v}")
        ch.state(jac, names, x0, tol, maxit)

    def newton_system(ch):
        jac = ch.pick("jactype", ["serial", "full", "sparse"])
        A = np.array(MATRICES[ch.pick("A", list(MATRICES))])
        kind = ch.pick("kind", ["linear", "pair"])
        b = np.array([ch.pick("b0", [-2.0, 0.0, 1.0]), ch.pick("b1", [-1.0, 0.5])])
        n = ch.pick("n", [1, 2]) if jac == "serial" else 1
        x0 = np.array([[1.5, 0.5], [3.0, -0.25]])[:n]
        flip = ch.flag("negative")
        s = -1.0 if flip else 1.0

        def one(z):
            if kind == "linear":
                return s * (A @ z - b), s * A
            v, d = _pair(*z)
            return s * v, s * d

        def f(x):
            if jac == "serial":
                r = [one(z) for z in x]
                return [np.array([e[0] for e in r]), np.array([e[1] for e in r])]
            v, d = one(x)
            return [v, d if jac == "full" else sp.csc_matrix(d)]

        start = x0 if jac == "serial" else x0[0]
        (x, it), warned = call(newton, f, start, tol=1e-9, maxit=50, jactype=jac)
        ch.op()
        ch.check(not warned, "system:convergence", f"{kind}")
        for z in np.atleast_2d(x):
            ch.close(one(z)[0], np.zeros(2), "system:solution", 1e-8)
        ch.state(jac, kind, A, b, n, flip)

    def bounds(ch, k):
        names = [ch.pick(f"bounds{i}", list(BOUNDS)) for i in range(k)]
        return (np.array([BOUNDS[n][0] for n in names]), np.array([BOUNDS[n][1] for n in names]))

    def judge(ch, tag, x, F, want, lb, ub, tol):
        ch.close(x, want, f"{tag}:solution", tol, f"bounds {lb} {ub}, function {F}")

    def ncp_linear(ch):
        solver = ch.pick("solver", ["serial", "full", "sparse", "lmmcp"])
        k = ch.pick("unknowns", [1, 2])
        if k == 1:
            A = np.array([[ch.pick("a", [0.5, 1.0, 3.0])]])
            q = np.array([ch.pick("q", [-4.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0])])
        else:
            A = np.array(MATRICES[ch.pick("A", list(MATRICES))])
            qs = exp.q([-2.0, -0.5, 0.0, 1.0], [-2.0, -1.0, -0.5, 0.0, 0.25, 1.0])
            q = np.array([ch.pick("q0", qs), ch.pick("q1", qs)])
        lb, ub = bounds(ch, k)
        x0 = np.array([ch.pick(f"x{i}", [0.0, 0.4, 1.0, 3.0] if k == 1 else exp.q([0.0, 1.0], [0.0, 0.4, 1.0])) for i in range(k)])
        sols = mcp(A, q, lb, ub)
        ch.check(len(sols) > 0 and max(abs(e - sols[0]).max() for e in sols) < 1e-8, "oracle", f"{sols}")
        want = sols[0]
        keep = x0.copy(), lb.copy(), ub.copy()
        if solver == "lmmcp":
            x, warned = call(lmmcp, lambda x: A @ x + q, lambda x: A, x0, lb, ub, verbose=False)
            tol = 1e-4
        elif solver == "serial":
            n = ch.pick("problems", [1, 2] if k == 1 or exp.thorough else [2])
            # a second problem, solved at the same time
            B, qb, lb2, ub2, xb = np.eye(k), np.full(k, -0.3), np.zeros(k), np.full(k, inf), np.full(k, 2.0)
            AA = [A, B][:n]
            QQ = [q, qb][:n]

            def f(x):
                return [np.array([M @ z + r for M, r, z in zip(AA, QQ, x)]), np.array(AA)]

            L, U, X0 = (np.array(e[:n]) for e in ([lb, lb2], [ub, ub2], [x0, xb]))
            (x, it), warned = call(ncpsolve, f, L, U, X0, tol=1e-10, jactype="serial")
            if n == 2:
                ch.close(x[1], np.full(k, 0.3), "linear:other", 1e-6, "the second problem")
            x = x[0]
            tol = 1e-6
        else:
            J = A if solver == "full" else sp.csr_matrix(A)
            (x, it), warned = call(ncpsolve, lambda x: [A @ x + q, J], lb, ub, x0, tol=1e-10, jactype=solver)
            tol = 1e-6
        ch.op()
        ch.check(not warned, "linear:convergence", f"{solver}, bounds {lb} {ub}")
        # degenerate problems are solved with the square root of the accuracy
        F = A @ want + q
        deg = ((abs(F) < 1e-9) & ((abs(want - lb) < 1e-9) | (abs(want - ub) < 1e-9))).any() or (lb == ub).any()
        judge(ch, "linear", x, F, want, lb, ub, 1e-4 if deg else tol)
        for e, c in zip((x0, lb, ub), keep):
            ch.same(list(e), list(c), "linear:argument")
        ch.state(solver, A, q, lb, ub, x0)

    MONO = {
        "exp": (lambda x, c: np.exp(x) - c, lambda x, c: np.exp(x), lambda c: np.log(c)),
        "cube": (lambda x, c: x**3 + x - c, lambda x, c: 3 * x**2 + 1, None),
        "log": (lambda x, c: np.log(x + 4) - c, lambda x, c: 1 / (x + 4), lambda c: np.exp(c) - 4),
    }

    def ncp_nonlinear(ch):
        solver = ch.pick("solver", ["serial", "full", "sparse", "lmmcp"])
        k = ch.pick("unknowns", [1, 2])
        # (lmmcp does not come back from points where the function is not defined)
        fs = [ch.pick(f"f{i}", [n for n in MONO if (n, solver) != ("log", "lmmcp")]) for i in range(k)]
        cs = np.array([ch.pick(f"c{i}", exp.q([0.5, 1.0, 4.0], [0.5, 1.0, 2.0, 4.0])) for i in range(k)])
        lb, ub = bounds(ch, k)
        x0 = np.full(k, ch.pick("x0", [0.0, 0.5, 1.0]))

        def F(x):
            return np.array([MONO[n][0](v, c) for n, v, c in zip(fs, x, cs)])

        def D(x):
            return np.diag([MONO[n][1](v, c) for n, v, c in zip(fs, x, cs)])

        want = np.zeros(k)
        for i in range(k):
            if MONO[fs[i]][2]:
                r = MONO[fs[i]][2](cs[i])
            else:
                z = np.roots([1, 0, 1, -cs[i]])
                r = z[abs(z.imag) < 1e-9].real[0]
            want[i] = min(max(r, lb[i]), ub[i])
        if solver == "lmmcp":
            x, warned = call(lmmcp, F, D, x0, lb, ub, verbose=False)
            tol = 1e-4
        elif solver == "serial":
            (x, it), warned = call(ncpsolve, lambda x: [np.array([F(x[0])]), np.array([D(x[0])])], lb[None], ub[None], x0[None], tol=1e-10)
            x, tol = x[0], 1e-5
        else:
            J = (lambda x: sp.csc_matrix(D(x))) if solver == "sparse" else D
            (x, it), warned = call(ncpsolve, lambda x: [F(x), J(x)], lb, ub, x0, tol=1e-10, jactype=solver)
            tol = 1e-5
        ch.op()
        ch.check(not warned, "nonlinear:convergence", f"{solver}, {fs}, bounds {lb} {ub}")
        deg = ((abs(F(want)) < 1e-9) & ((abs(want - lb) < 1e-9) | (abs(want - ub) < 1e-9))).any() or (lb == ub).any()
        judge(ch, "nonlinear", x, F(want), want, lb, ub, 1e-3 if deg else tol)
        ch.state(solver, fs, cs, lb, ub, x0)

    def failing(ch):
        """problems without a solution are not silently declared solved"""
        solver = ch.pick("solver", ["serial", "full", "sparse", "lmmcp"])
        kind = ch.pick("problem", ["none", "nan", "decreasing"])
        lb, ub = BOUNDS[ch.pick("bounds", ["free", "big", "lower"])]
        x0 = ch.pick("x0", [0.5, 2.0])
        F, D = {
            "none": (lambda x: x**2 + 1, lambda x: 2 * x),
            "nan": (lambda x: np.sqrt(x - 5), lambda x: 0.5 / np.sqrt(x - 5)),
            "decreasing": (lambda x: -1.0 + 0 * x, lambda x: -1e-9 + 0 * x),
        }[kind]
        if kind == "none" and lb == 0.0:
            ch.prune()  # solved at the bound
        lo, up = np.array([lb]), np.array([ub])
        raised = False
        x = None
        try:
            if solver == "lmmcp":
                x, warned = call(lmmcp, F, lambda x: np.diag(D(x)), np.array([x0]), lo, up, verbose=False)
            elif solver == "serial":
                (x, it), warned = call(ncpsolve, lambda x: [F(x), D(x)[:, :, None]], lo[None], up[None], np.array([[x0]]), maxit=15)
            else:
                J = (lambda d: sp.csc_matrix(np.diag(d))) if solver == "sparse" else np.diag
                (x, it), warned = call(ncpsolve, lambda x: [F(x), J(D(x))], lo, up, np.array([x0]), maxit=15, jactype=solver)
        except Exception:
            raised = True
        ch.op()
        ch.check(raised or warned, "failing:silent", f"{solver} returned {x} for {kind}")
        ch.state(solver, kind, lb, ub, x0)

    exp.explore("newton", newton_scalar)
    exp.explore("systems", newton_system)
    exp.explore("linear complementarity", ncp_linear)
    exp.explore("nonlinear complementarity", ncp_nonlinear)
    exp.explore("failing", failing)
