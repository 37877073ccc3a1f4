"""C15  numerical building blocks: batches of linear systems, derivatives, tensors, filters.

All small matrices over a menu of entries; results are compared with direct formulas.
"""
import itertools
import warnings

import numpy as np

from mc import kit
from mc.kit import dolo

from dolo.algos import invert as inv_
from dolo.algos.improved_time_iteration import ssmul
from dolo.numeric import filters, matrix_equations, tensor
from dolo.numeric import misc
from dolo.numeric.optimize import newton as nt
from dolo.numeric import serial_operations as so


def run(exp):
    exp.assume("matrices up to 3x3 with entries in stated menus")

    def systems(ch):
        n = ch.pick("n", [1, 2, 3])
        vals = {1: [-2.0, -1.0, 0.0, 0.5, 3.0], 2: [-1.0, 0.0, 1.0, 2.0], 3: exp.q([-1.0, 0.0, 2.0], [-1.0, 0.0, 1.0, 2.0])}[n]
        rows = list(itertools.product(vals, repeat=n))
        first = ch.pick("first row", rows)
        second = ch.pick("second row", rows) if n == 3 else None
        given = [first] + ([second] if n == 3 else [])
        A = np.array([given + list(r) for r in itertools.product(rows, repeat=n - len(given))])
        B = np.array([[1.0, -2.0, 0.5][:n]] * len(A)) + np.arange(len(A))[:, None] % 3
        det = np.array([round(np.linalg.det(a), 8) for a in A])
        ok = det != 0
        how = ch.pick("how", ["newton", "newton-fast", "serial", "serial-fast", "invert_gu", "solve_gu", "invert", "solve_tensor", "invert.serial", "mult_AB"])
        Ak, Bk = A.copy(), B.copy()
        kept = True
        As, Bs = A[ok], B[ok]
        if len(As) == 0:
            ch.prune()
        sol = np.array([np.linalg.solve(a, b) for a, b in zip(As, Bs)])
        if how in ("newton", "serial"):
            fun = nt.serial_solve if how == "newton" else so.serial_solve
            got = fun(As, Bs)
            if not ok.all():
                try:
                    fun(A, B)
                    # rounding may make the pivot different from zero
                    bad = False
                except Exception as e:
                    ch.check(getattr(e, "i", None) is not None and not ok[e.i], "systems:diagnose", f"{e}: {getattr(e, 'i', None)}")
                    ch.close(e.J, A[e.i], "systems:diagnose", 0)
                    ch.close(e.x, B[e.i], "systems:diagnose", 0)
        elif how in ("newton-fast", "serial-fast"):
            fun = nt.serial_solve if how == "newton-fast" else so.serial_solve
            got = fun(As, Bs, diagnose=False)
        elif how == "invert_gu":
            got = inv_.invert_gu(As.copy())
            ch.same(got.shape, As.shape, "systems:shape")
            ch.close(got @ As, np.array([np.eye(n)] * len(As)), f"systems:{how}", 1e-9)
            ch.op(n=len(As))
            ch.state(n, first, second, how)
            return
        elif how == "solve_gu":
            got = inv_.solve_gu(As.copy(), Bs.copy())
        elif how == "invert":
            got = []
            for a, b in zip(As[:40], Bs):
                x = b.copy()
                inv_.invert(a.copy(), x)
                got.append(x)
            got, sol = np.array(got), sol[:40]
        elif how == "solve_tensor":
            M = np.concatenate([Bs[:, :, None], 2 * Bs[:, ::-1, None]], axis=2)
            got = M.copy()
            inv_.solve_tensor(As.copy(), got)
            sol = np.array([np.linalg.solve(a, b) for a, b in zip(As, M)])
        elif how == "invert.serial":
            got = inv_.serial_solve(As, Bs)
        else:  # dres is n_m x N x n x n, jres is n_m x N x n x n_m x n
            C = np.concatenate([As, As[:, ::-1, :]]).reshape((2, len(As), n, n))
            J = np.arange(2 * len(As) * n * 2 * n).reshape((2, len(As), n, 2, n)) % 7 - 2.0
            got = inv_.mult_AB(C, J)
            sol = np.zeros_like(J)
            for i, j, q, v in itertools.product(range(2), range(2), range(len(As)), range(n)):
                sol[i, q, :, j, v] = np.linalg.solve(C[i, q], J[i, q, :, j, v])
        ch.op(n=len(As))
        ch.close(got, sol, f"systems:{how}", 1e-8)
        ch.close(A, Ak, "systems:argument", 0)
        ch.close(B, Bk, "systems:argument", 0)
        ch.state(n, first, second, how)

    def whole_numbers(ch):
        """arrays of integers are numbers too"""
        fun = ch.pick("module", [nt.serial_solve, so.serial_solve])
        diagnose = ch.flag("diagnose")
        A = np.array([[[ch.pick("a", [1, 2, 3]), ch.pick("b", [0, 1])], [ch.pick("c", [0, 1]), ch.pick("d", [2, 5])]]])
        B = np.array([[ch.pick("u", [1, 3]), 1]])
        if ch.flag("float matrix"):
            A = A.astype(float)
        got = fun(A, B, diagnose=diagnose)
        ch.op()
        ch.close(got, np.linalg.solve(A[0], B[0])[None, :], "integers", 1e-9)
        ch.state(A, B, diagnose)

    def products(ch):
        N = ch.pick("N", [1, 2, 3])
        I, J, K = (ch.pick(e, [1, 2, 3]) for e in "IJK")
        seed = np.arange(N * I * J * 3 + N * J * K + 40)
        A = (seed[: N * I * J] * 7 % 11 - 4.0).reshape((N, I, J))
        B = (seed[: N * J * K] * 5 % 13 - 6.0).reshape((N, J, K))
        ch.close(so.serial_multiplication(A, B), np.array([a @ b for a, b in zip(A, B)]), "products:serial", 1e-12)
        ch.close(so.serial_multiplication(A[0], B[0]), A[0] @ B[0], "products:matrices", 1e-12)
        ch.close(ssmul(A, np.ascontiguousarray(B[:, :, 0])), np.array([a @ b[:, 0] for a, b in zip(A, B)]), "products:ssmul", 1e-12)
        ch.op(n=3)
        # tensors : the first k arguments of a multilinear function
        M = (np.arange(I * J * K * 2) * 3 % 7 - 2.0).reshape((2, I, J, K))
        C1, C2 = (np.arange(J * N) % 5 - 1.0).reshape((J, N)), (np.arange(K * 2) % 3 + 0.5).reshape((K, 2))
        w = np.zeros((2, I, N, 2))
        for a, b, c, d, j, k in itertools.product(range(2), range(I), range(N), range(2), range(J), range(K)):
            w[a, b, c, d] += M[a, b, j, k] * C1[j, c] * C2[k, d]
        ch.close(tensor.mdot(M, C1, C2), w, "products:mdot", 1e-12)
        ch.close(tensor.multidot_old(M, [C1, C2]), w, "products:mdot", 1e-12)
        v = C2[:, 0]
        ch.close(tensor.mdot(M, C1, v), w[:, :, :, 0], "products:mdot", 1e-12)
        ch.close(tensor.sdot(M, C2), np.einsum("aijk,kl->aijl", M, C2), "products:sdot", 1e-12)
        ch.close(tensor.sdot(A[0], B[0]), A[0] @ B[0], "products:sdot", 1e-12)
        ch.close(tensor.multitake(M, [[1], [J - 1, 0]], [0, 2]), M[[1]][:, :, [J - 1, 0]], "products:take", 0)
        ch.op(n=6)
        ch.state(N, I, J, K)

    def sylvester(ch):
        nd = ch.pick("order", [1, 2, 3])
        n, m = ch.pick("n", [1, 2]), ch.pick("m", [1, 2])
        vals = [-0.5, 0.0, 0.4]
        e = [ch.pick(f"e{k}", vals) for k in range(3)]
        A = np.array([[2.0, e[0]], [0.3, 1.5]])[:n, :n]
        B = np.array([[0.5, e[1]], [-0.2, 0.1]])[:n, :n]
        C = np.array([[0.6, e[2]], [0.1, -0.3]])[:m, :m]
        D = (np.arange(n * m**nd) * 5 % 7 - 2.0).reshape((n,) + (m,) * nd)
        X = matrix_equations.solve_sylvester(A, B, C, D)
        ch.op()
        ch.same(X.shape, D.shape, "sylvester:shape")
        ids = "abc"[:nd]
        res = np.tensordot(A, X, (1, 0)) + D
        XC = X
        for k in range(nd):
            XC = np.moveaxis(np.tensordot(XC, C, (k + 1, 0)), -1, k + 1)
        res = res + np.tensordot(B, XC, (1, 0))
        ch.close(res, np.zeros_like(res), "sylvester", 1e-9)
        # second order : F P P + G P + H = 0 with P stable
        if nd == 1:
            P0 = np.array([[0.5, e[0]], [e[1] / 2, -0.3]])[:n, :n]
            Q0 = np.array([[2.0, e[2]], [0.1, -3.0]])[:n, :n]
            # (P - Q0) (P - P0) = 0 :   P P - (Q0) P ... written with F = I
            F = np.array([[1.0, 0.2], [0.0, 2.0]])[:n, :n]
            G, H = -F @ (Q0 + P0), F @ Q0 @ P0
            lam = np.sort(abs(np.linalg.eigvals(np.block([[np.zeros((n, n)), np.eye(n)], [-np.linalg.solve(F, H), -np.linalg.solve(F, G)]]))))
            if lam[n - 1] < 0.99 and lam[n] > 1.01:
                ev, P = matrix_equations.second_order_solver(F, G, H)
                ch.op()
                ch.close(F @ P @ P + G @ P + H, np.zeros((n, n)), "sylvester:second-order", 1e-8)
                ch.check(abs(np.linalg.eigvals(P)).max() < 1, "sylvester:stable", "unstable solution")
        ch.state(nd, n, m, e)

    POLY = {
        "one": (lambda x: np.array([x[0] ** 2 * 3 - x[1]]), lambda x: np.array([[6 * x[0], -1 + 0 * x[1]]])),
        "two": (lambda x: np.array([x[0] * x[1], x[1] ** 2]), lambda x: np.array([[x[1], x[0]], [0 * x[0], 2 * x[1]]])),
        "three": (lambda x: np.array([x[0], x[1] - x[0], np.exp(x[1])]),
                  lambda x: np.array([[1 + 0 * x[0], 0 * x[0]], [-1 + 0 * x[0], 1 + 0 * x[0]], [0 * x[0], np.exp(x[1])]])),
    }

    def derivatives(ch):
        f, df = POLY[ch.pick("f", list(POLY))]
        N = ch.pick("N", [1, 2, 3])
        vals = [-1.0, 0.0, 0.5, 2.0]
        x = np.array([[ch.pick(f"x{k}", vals) for k in range(2)]] + [[0.3, -0.7], [1.0, 1.5]])[:N]
        keep = x.copy()
        J = np.array([df(p) for p in x])
        v, d = nt.SerialDifferentiableFunction(lambda p: f(p.T).T)(x)
        ch.close(v, f(x.T).T, "derivatives:value", 0)
        ch.close(d, J, "derivatives:serial", 1e-5)
        ch.close(so.numdiff1(lambda p: f(p), x.T), np.moveaxis(J, 0, -1), "derivatives:numdiff1", 1e-5)
        ch.close(misc.MyJacobian(f)(x[0]), J[0], "derivatives:jacobian", 1e-5)
        if N == 1:
            ch.close(so.numdiff2(lambda p: f(p)[..., None], x[0])[..., 0], J[0], "derivatives:numdiff2", 1e-5)
        ch.op(n=4)
        ch.close(x, keep, "derivatives:argument", 0)
        ch.state(x, J)

    def filtering(ch):
        n = ch.pick("n", exp.q([4, 5, 8], [4, 5, 6, 8, 12]))
        lam = ch.pick("lambda", [0.0, 1.0, 6.25, 1600])
        y = np.array([ch.pick(f"y{k}", [-1.0, 0.0, 2.0]) for k in range(4)] + [0.5, 3.0, -2.0, 1.0, 0.2, 0.1, 4.0, 1.0])[:n]
        dims = ch.pick("dims", [1, 2])
        D = np.zeros((n - 2, n))
        for k in range(n - 2):
            D[k, k : k + 3] = [1, -2, 1]
        M = np.eye(n) + lam * D.T @ D
        data = y if dims == 1 else np.array([y, y[::-1] * 2])
        keep = data.copy()
        form = ch.pick("as", ["array", "list"])
        T, cyc = filters.hp_filter(data if form == "array" else data.tolist(), lam)
        ch.op()
        ch.close(T, np.linalg.solve(M, np.atleast_2d(data).T).T.reshape(data.shape), "filters:hp", 1e-7)
        ch.close(cyc, data - T, "filters:cycle", 1e-9)
        ch.close(data, keep, "filters:argument", 0)
        # band pass
        k = ch.pick("order", [1, 2])
        if n > 2 * k:
            w1, w2 = ch.pick("band", [(6, 32), (2, 8)])
            lo, hi = 2 * np.pi / w2, 2 * np.pi / w1
            j = np.arange(-k, k + 1)
            b = np.array([(hi - lo) / np.pi if i == 0 else (np.sin(hi * i) - np.sin(lo * i)) / (np.pi * i) for i in j])
            b -= b.mean()
            want = np.array([sum(b[k + i] * y[t + i] for i in j) for t in range(k, n - k)])
            ch.close(filters.bandpass_filter(y, k, w1, w2), want, "filters:bandpass", 1e-9)
            ch.op()
        ch.state(n, lam, y, dims)

    def products_of_lists(ch):
        k = ch.pick("lists", [1, 2, 3])
        menu = [[1, 2], [0.5, 0.75, 3.5], [4], [-1.5], [0, 7, 8]]
        ls = [ch.pick(f"l{i}", menu) for i in range(k)]
        if ch.flag("arrays"):
            ls = [np.array(e) for e in ls]
        ch.close(misc.cartesian(ls), np.array(list(itertools.product(*ls)), dtype=float), "cartesian", 0)
        a = [float(min(e)) for e in ls]
        b = [float(max(e)) + 1 for e in ls]
        o = [len(e) for e in ls]
        ch.close(misc.mlinspace(a, b, o), np.array(list(itertools.product(*[np.linspace(*t) for t in zip(a, b, o)]))), "mlinspace", 1e-13)
        ch.op(n=2)
        ch.state(ls)

    # compiled once for all workers
    A, V = np.array([np.eye(2)]), np.ones((1, 2))
    inv_.invert(np.eye(2), np.ones(2))
    inv_.serial_solve(A, V)
    inv_.mult_AB(np.array([A, A]), np.ones((2, 1, 2, 2, 2)))
    so.serial_multiplication(A, A)
    so.serial_multiplication(A[0], A[0])
    ssmul(A, V)
    exp.explore("systems", systems)
    exp.explore("integers", whole_numbers)
    exp.explore("products", products)
    exp.explore("sylvester", sylvester)
    exp.explore("derivatives", derivatives)
    exp.explore("filters", filtering)
    exp.explore("cartesian", products_of_lists)
