"""C07  discretization of i.i.d. shocks: nodes and weights represent the law exactly in the
sense of the chosen method, through every way of asking for them.
"""
import itertools
import math
import statistics

import numpy as np

from mc import kit
from mc.kit import dolo, model

from dolo.numeric.distribution import (
    Bernouilli, Beta, EquiprobableDistribution, FiniteDistribution, LogNormal, Mixture, Normal,
    ProductDistribution, Truncation, UNormal, Uniform,
)
from dolo.numeric.processes import ConstantProcess, MarkovChain, Product, ProductProcess
from numpy.polynomial.hermite import hermgauss
from scipy.special import betaincinv

ND = statistics.NormalDist()


def content(ch, d, sig):
    """points and weights, read through every accessor of a discretized iid process"""
    n = d.n_inodes(0)
    pts = np.array([d.inode(0, j) for j in range(n)], dtype=float)
    w = np.array([d.iweight(0, j) for j in range(n)], dtype=float)
    ch.close(np.array([d.point(j) for j in range(n)], dtype=float), pts, sig + ":point", 0)
    ch.close(np.array([d.weight(j) for j in range(n)], dtype=float), w, sig + ":weight", 0)
    ch.same(d.n, n, sig + ":n")
    ch.same(d.n_nodes, 1, sig + ":n_nodes")
    it = list(d.items())
    ch.close([float(a) for a, _ in it], w, sig + ":items-weights", 0)
    ch.close(np.array([x for _, x in it], dtype=float), pts, sig + ":items-points", 0)
    it = list(d.iteritems(0))
    keep = w > 1e-16
    ch.close([float(a) for a, _ in it], w[keep], sig + ":iteritems-weights", 0)
    if keep.any():
        ch.close(np.array([x for _, x in it], dtype=float), pts[keep], sig + ":iteritems-points", 0)
    ch.same(pts.ndim, 2, sig + ":points are vectors")
    ch.check((w >= 0).all() and abs(w.sum() - 1) < 1e-12, sig + ":probability", f"weights {w}")
    ch.close(d.integrate(lambda x: np.asarray(x, dtype=float) ** 2), (w[:, None] * pts ** 2).sum(axis=0), sig + ":integrate", 1e-12)
    return pts, w


def as_chain(ch, m, pts, w, sig):
    ch.check(isinstance(m, MarkovChain), sig + ":type", str(type(m)))
    ch.close(m.values, pts, sig + ":values", 1e-14)
    ch.close(m.transitions, np.repeat(np.asarray(w)[None, :], len(w), axis=0), sig + ":transitions", 1e-14)


def sort(pts, w):
    k = np.lexsort(np.round(np.column_stack([w[:, None], pts[:, ::-1]]), 9).T)
    return pts[k], w[k]


def run(exp):
    kit.use_fast()
    exp.assume(
        "laws, orders and product/mixture combinations from the menus of mc/checks/c07.py",
        "random draws are checked on laws whose outcome is certain, on finite laws while the random source goes through all of its 4096 equally spaced outputs, and through exact scaling relations under one seed",
    )
    MU = [None, 0.0, 0.3, -1.25, 10.0]
    SIG = [0.0, 0.1, 1.0, 2.5]

    # ---------------------------------------------------------------- Gauss-Hermite, one dimension
    def gh1(ch):
        mu, sg = ch.pick("mu", MU), ch.pick("sigma", SIG)
        N = ch.pick("N", range(1, exp.q(12, 20) + 1))
        how = ch.pick("law", ["UNormal", "Normal", "Normal-list"])
        m = 0.0 if mu is None else mu
        if how == "UNormal":
            law = UNormal(σ=sg) if mu is None else UNormal(sigma=sg, mu=mu)
            get = lambda to: law.discretize(to=to, N=N, method="gauss-hermite")
        else:
            law = Normal(Σ=[[sg ** 2]]) if mu is None else Normal(Σ=[[sg ** 2]], Μ=[mu])
            get = lambda to: law.discretize(to=to, N=N if how == "Normal" else [N])
        d = get("iid")
        ch.op(n=2)
        pts, w = content(ch, d, "gh1")
        x, om = hermgauss(N)
        want, ww = m + sg * math.sqrt(2) * x, om / math.sqrt(math.pi)
        ch.same(len(pts), N, "gh1:n")
        p, v = sort(pts, w)
        wp, wv = sort(want[:, None], ww)
        ch.close(p, wp, "gh1:points", 1e-9, f"points of N({m}, {sg}^2) with {N} nodes")
        if sg > 0:
            ch.close(v, wv, "gh1:weights", 1e-9, "weights")
        # exactness on the central moments up to 2N-1
        for k in range(0, min(2 * N, 12)):
            exact = 0.0 if k % 2 else sg ** k * math.prod(range(1, k, 2))
            ch.close((w * (pts[:, 0] - m) ** k).sum() if k else w.sum(), exact, f"gh1:moment{k}", 1e-8 * max(1, 10 * sg) ** k, "moment")
        as_chain(ch, get("mc"), pts, w, "gh1:mc")
        d2 = get("iid")
        ch.close(np.array([d2.point(j) for j in range(N)]), pts, "gh1:again", 0)
        ch.state(m, sg, N)

    # ---------------------------------------------------------------- equiprobable
    laws = {}
    for mu, sg in [(0.0, 1.0), (0.3, 0.1), (-2.0, 3.0)]:
        laws[f"UNormal({mu},{sg})"] = (lambda mu=mu, sg=sg: UNormal(mu=mu, sigma=sg), lambda p, mu=mu, sg=sg: mu + sg * ND.inv_cdf(p), (-math.inf, math.inf))
        laws[f"LogNormal({mu},{sg})"] = (lambda mu=mu, sg=sg: LogNormal(mu=mu, sigma=sg), lambda p, mu=mu, sg=sg: math.exp(mu + sg * ND.inv_cdf(p)), (0.0, math.inf))
    laws["LogNormal()"] = (lambda: LogNormal(), lambda p: math.exp(ND.inv_cdf(p)), (0.0, math.inf))
    for a, b in [(0.0, 1.0), (-1.5, 0.5), (2.0, 7.0)]:
        laws[f"Uniform({a},{b})"] = (lambda a=a, b=b: Uniform(a=a, b=b), lambda p, a=a, b=b: a + (b - a) * p, (a, b))
    laws["Uniform()"] = (lambda: Uniform(), lambda p: p, (0.0, 1.0))
    for a, b in [(2.0, 5.0), (0.5, 0.5), (3.0, 1.0)]:
        laws[f"Beta({a},{b})"] = (lambda a=a, b=b: Beta(alpha=a, beta=b), lambda p, a=a, b=b: float(betaincinv(a, b, p)), (0.0, 1.0))

    def trunc(mk, q, cdf, lb, ub):
        lo = 0.0 if lb == -math.inf else cdf(lb)
        hi = 1.0 if ub == math.inf else cdf(ub)
        return lambda: Truncation(mk(), lb=lb, ub=ub), lambda p: q(lo + (hi - lo) * p), (lb, ub)

    for lb, ub in [(-1.0, 1.0), (0.0, math.inf), (-math.inf, 0.5), (-math.inf, math.inf)]:
        laws[f"Truncation(UNormal,{lb},{ub})"] = trunc(
            lambda: UNormal(mu=0.3, sigma=0.8), lambda p: 0.3 + 0.8 * ND.inv_cdf(p), lambda x: ND.cdf((x - 0.3) / 0.8), lb, ub
        )
    laws["Truncation(Uniform)"] = trunc(lambda: Uniform(-1, 3), lambda p: -1 + 4 * p, lambda x: (x + 1) / 4, 0.0, 2.0)

    def equi(ch):
        name = ch.pick("law", list(laws))
        mk, q, (lb, ub) = laws[name]
        N = ch.pick("N", [1, 2, 3, 5, 8])
        mp = ch.pick("mass_point", [None, "median", "left", "middle", "right"])
        to = ch.pick("to", ["iid", "mc", "default"])
        if mp in ("left", "middle") and lb == -math.inf or mp in ("right", "middle") and ub == math.inf:
            ch.prune()

        def quant(p):
            return lb if p <= 0 else ub if p >= 1 else q(p)

        if mp in (None, "median"):
            want = [quant((i + 0.5) / N) for i in range(N)]
        elif mp == "left":
            want = [quant(i / N) for i in range(N)]
        elif mp == "right":
            want = [quant((i + 1) / N) for i in range(N)]
        else:
            want = [0.5 * (quant(i / N) + quant((i + 1) / N)) for i in range(N)]
        kw = dict(N=N)
        if mp is not None:
            kw["mass_point"] = mp
        if to != "default":
            kw["to"] = to
        if ch.flag("method given"):
            kw["method"] = "equiprobable"
        law = mk()
        d = law.discretize(**kw)
        ch.op()
        want = np.array(want)[:, None]
        if to == "mc":
            ch.check(isinstance(d, MarkovChain), "equi:type", str(type(d)))
            ch.close(d.values, want, "equi:mc-values", 1e-7, name)
            ch.close(d.transitions, np.full((N, N), 1 / N), "equi:mc-transitions", 1e-12, name)
        else:
            pts, w = content(ch, d, "equi")
            ch.close(pts, want, "equi:points", 1e-7, name)
            ch.close(w, np.full(N, 1 / N), "equi:weights", 1e-12, name)
        ch.state(name, N, mp)

    # ---------------------------------------------------------------- Gauss-Hermite, several dimensions
    S2 = [
        [[1.0, 0.0], [0.0, 4.0]], [[0.5, 0.2], [0.2, 0.3]], [[1.0, -1.0], [-1.0, 2.0]], [[0.04, 0.0], [0.0, 0.0]],
        [[0.0, 0.0], [0.0, 0.09]], [[0.0, 0.0], [0.0, 0.0]],
    ]
    S3 = [
        [[1.0, 0.2, 0.1], [0.2, 2.0, -0.3], [0.1, -0.3, 0.5]], [[1.0, 0.0, 0.4], [0.0, 0.0, 0.0], [0.4, 0.0, 0.5]],
        [[0.25, 0, 0], [0, 1.0, 0], [0, 0, 2.25]],
    ]

    def ghn(ch):
        d = ch.pick("d", [2, 3])
        S = np.array(ch.pick("Sigma", S2 if d == 2 else S3), dtype=float)
        mu = ch.pick("Mu", [None, [0.5, -1.0, 2.0]])
        orders = ch.pick("N", [None] + list(range(2, exp.q(4, 6))) + (
            [[2, 3], [4, 2], [1, 3]] if d == 2 else [[2, 3, 2], [3, 2, 4]]))
        law = Normal(Σ=S.tolist()) if mu is None else Normal(Σ=S.tolist(), Μ=mu[:d])
        m = np.zeros(d) if mu is None else np.array(mu[:d])
        for again in range(2):
            dd = law.discretize() if orders is None else law.discretize(N=orders)
            ch.op()
            pts, w = content(ch, dd, "ghn")
            NN = [5] * d if orders is None else [orders] * d if isinstance(orders, int) else orders
            ch.same(len(w), math.prod(NN), "ghn:n", f"number of nodes for N={orders}")
            c = pts - m
            ch.close(w @ pts, m, "ghn:mean", 1e-10, "mean of the nodes")
            if min(NN) >= 2:
                ch.close(np.einsum("n,ni,nj->ij", w, c, c), S, "ghn:cov", 1e-10, "covariance of the nodes")
                ch.close(np.einsum("n,ni,nj,nk->ijk", w, c, c, c), np.zeros((d,) * 3), "ghn:third", 1e-9, "third moments")
            if min(NN) >= 3:
                four = np.einsum("ij,kl->ijkl", S, S) + np.einsum("ik,jl->ijkl", S, S) + np.einsum("il,jk->ijkl", S, S)
                ch.close(np.einsum("n,ni,nj,nk,nl->ijkl", w, c, c, c, c), four, "ghn:fourth", 1e-8, "fourth moments")
            ch.close(law.Σ, S, "ghn:law-changed", 0, "the law after being discretized")
            ch.close(law.Μ, m, "ghn:law-changed", 0, "the law after being discretized")
        mc = law.discretize(to="mc") if orders is None else law.discretize(to="mc", N=orders)
        as_chain(ch, mc, pts, w, "ghn:mc")
        ch.state(S, m, orders)

    # ---------------------------------------------------------------- discrete laws, products, mixtures
    def finite(n, d, seed):
        pts = np.array([[((7 * i + 3 * j + seed) % 11) / 4 - 1 for j in range(d)] for i in range(n)])
        w = np.array([1.0 + ((i + seed) % 3) for i in range(n)])
        return pts, w / w.sum()

    disc = {}
    for pi in (0.0, 0.3, 0.5, 1.0):
        disc[f"Bernouilli({pi})"] = (lambda pi=pi: Bernouilli(π=pi), np.array([[0.0], [1.0]]), np.array([1 - pi, pi]))
    for mu in ([0.5], [1.0, -2.0]):
        disc[f"Constant({mu})"] = (lambda mu=mu: ConstantProcess(mu=mu), np.array([mu]), np.array([1.0]))
    disc["Constant(2)"] = (lambda: ConstantProcess(μ=2), np.array([[2.0]]), np.array([1.0]))
    for n, d in [(1, 1), (2, 1), (3, 2), (2, 3)]:
        P, w = finite(n, d, n)
        disc[f"Finite({n},{d})"] = (lambda P=P, w=w: FiniteDistribution(P.copy(), w.copy()), P, w)
        disc[f"Equi({n},{d})"] = (lambda P=P: EquiprobableDistribution(P.copy()), P, np.full(n, 1 / n))
    P, w = finite(3, 1, 5)
    w = np.array([0.5, 0.0, 0.5])
    disc["Finite(with zero)"] = (lambda P=P, w=w: FiniteDistribution(P.copy(), w.copy()), P, w)
    gh = UNormal(mu=0.3, sigma=0.5)
    x, om = hermgauss(3)
    disc["UNormal"] = (
        lambda: UNormal(mu=0.3, sigma=0.5), np.array([[0.3 + 0.5 * ND.inv_cdf((i + 0.5) / 5)] for i in range(5)]), np.full(5, 0.2))
    disc["Uniform"] = (lambda: Uniform(1.0, 3.0), np.array([[1 + 2 * (i + 0.5) / 5] for i in range(5)]), np.full(5, 0.2))

    def discrete(ch):
        name = ch.pick("law", list(disc))
        mk, P, w = disc[name]
        law = mk()
        d = law.discretize() if ch.flag("default") else law.discretize(to="iid")
        ch.op()
        pts, ww = content(ch, d, "discrete")
        ch.close(pts, P, "discrete:points", 1e-9, name)
        ch.close(ww, w, "discrete:weights", 1e-12, name)
        ch.same(law.d, P.shape[1], "discrete:d", name)
        if name.startswith(("Bern", "Fin", "Equi")):
            pts, ww = content(ch, law, "discrete:itself")
            ch.close(pts, P, "discrete:itself:points", 1e-9, name)
            ch.close(ww, w, "discrete:itself:weights", 1e-12, name)
        if not name.startswith("Constant"):
            as_chain(ch, law.discretize(to="mc"), P, w, "discrete:mc") if name not in ("UNormal",) else ch.close(
                law.discretize(to="mc").values, P, "discrete:mc", 1e-9)
        else:
            mc = law.discretize(to="mc")
            ch.close(mc.values, P, "discrete:mc", 0)
            ch.close(mc.transitions, [[1.0]], "discrete:mc", 0)
        ch.state(name)

    menu = list(disc)
    small = ["Bernouilli(0.3)", "Constant([1.0, -2.0])", "Finite(3,2)", "Equi(2,1)", "UNormal"]

    def product(ch):
        k = ch.pick("factors", [1, 2, 3])
        names = [ch.pick(f"law{i}", menu if k < 3 else small) for i in range(k)]
        how = ch.pick("how", ["ProductProcess", "Product", "ProductDistribution"])
        laws = [disc[n][0]() for n in names]
        pr = ProductProcess(*laws) if how == "ProductProcess" else Product(*laws) if how == "Product" else ProductDistribution(laws)
        P, w = [], []
        for c in itertools.product(*[range(len(disc[n][2])) for n in names]):
            P.append(np.concatenate([disc[n][1][i] for n, i in zip(names, c)]))
            w.append(math.prod(float(disc[n][2][i]) for n, i in zip(names, c)))
        P, w = np.array(P), np.array(w)
        d = pr.discretize()
        ch.op(n=2)
        pts, ww = content(ch, d, "product")
        ch.same(pts.shape, P.shape, "product:shape")
        a, b = sort(pts, ww)
        c, e = sort(P, w)
        ch.close(a, c, "product:points", 1e-9, str(names))
        ch.close(b, e, "product:weights", 1e-9, str(names))
        ch.same(pr.d, P.shape[1], "product:d")
        if not any(n.startswith("Constant") for n in names) or how == "ProductDistribution":
            m = pr.discretize(to="mc")
            ch.close(m.values, pts, "product:mc-values", 1e-12)
            ch.close(m.transitions, np.repeat(ww[None, :], len(ww), axis=0), "product:mc-transitions", 1e-12)
        ch.state(names)

    def options(ch):
        """options of each factor of a product"""
        N = [ch.pick("N0", [1, 2, 4]), ch.pick("N1", [1, 2, 3])]
        to = ch.pick("to", [None, "iid", "mc"])
        shared = ch.flag("shared")
        pr = ProductProcess(UNormal(mu=0.1, sigma=0.5), Normal(Σ=[[1.0]], Μ=[2.0]))
        if shared:
            opt, N = dict(N=N[0]), [N[0], N[0]]
        else:
            opt = [dict(N=N[0], method="gauss-hermite"), dict(N=N[1])]
        d = pr.discretize(to=to, options=opt)
        ch.op()
        x0 = (0.1 + 0.5 * math.sqrt(2) * hermgauss(N[0])[0]) if not shared else np.array([0.1 + 0.5 * ND.inv_cdf((i + 0.5) / N[0]) for i in range(N[0])])
        w0 = hermgauss(N[0])[1] / math.sqrt(math.pi) if not shared else np.full(N[0], 1 / N[0])
        x1, w1 = 2 + math.sqrt(2) * hermgauss(N[1])[0], hermgauss(N[1])[1] / math.sqrt(math.pi)
        P = np.array([[a, b] for a in x0 for b in x1])
        w = np.kron(w0, w1)
        if to == "mc":
            pts, ww = d.values, d.transitions[0]
            ch.close(d.transitions, np.repeat(ww[None, :], len(ww), axis=0), "options:mc", 1e-12)
        else:
            pts, ww = content(ch, d, "options")
        ch.same(pts.shape, P.shape, "options:shape", f"{opt}")
        a, b = sort(pts, ww)
        c, e = sort(P, w)
        ch.close(a, c, "options:points", 1e-9, f"{opt}")
        ch.close(b, e, "options:weights", 1e-9, f"{opt}")
        ch.state(N, to, shared)

    def indexes():
        out = {}
        for pi in (0.0, 0.4, 1.0):
            out[f"Bernouilli({pi})"] = (lambda pi=pi: Bernouilli(π=pi), {0: 1 - pi, 1: pi})
        for perm in itertools.permutations(range(3)):
            p = [0.5, 0.3, 0.2]
            out[f"Finite{perm}"] = (
                lambda perm=perm, p=p: FiniteDistribution(np.array(perm)[:, None], np.array(p)), {perm[i]: p[i] for i in range(3)})
        out["Equi(1,2)"] = (lambda: EquiprobableDistribution(np.array([[2], [1]])), {2: 0.5, 1: 0.5})
        return out

    IDX = indexes()
    comps1 = ["Constant([0.5])", "UNormal", "Uniform", "Equi(2,1)", "Finite(2,1)"]
    comps2 = ["Constant([1.0, -2.0])", "Finite(3,2)", "Equi(3,2)"]

    def mixture(ch):
        iname = ch.pick("index", list(IDX))
        mk, prob = IDX[iname]
        menu = ch.pick("dim", [comps1, comps2])
        key = ch.pick("keys", [int, str])
        values = sorted(prob)
        names = {v: ch.pick(f"component {v}", menu if len(values) < 3 else menu[:3]) for v in values}
        order = values if ch.flag("order") else values[::-1]
        mx = Mixture(index=mk(), distributions={key(v): disc[names[v]][0]() for v in order})
        P, w = [], []
        for v in values:
            P.extend(disc[names[v]][1])
            w.extend(prob[v] * disc[names[v]][2])
        P, w = np.array(P), np.array(w)
        d = mx.discretize()
        ch.op()
        pts, ww = content(ch, d, "mixture")
        ch.same(pts.shape, P.shape, "mixture:shape")
        a, b = sort(pts, ww)
        c, e = sort(P, w)
        ch.close(a, c, "mixture:points", 1e-9, f"{iname} {names}")
        ch.close(b, e, "mixture:weights", 1e-9, f"{iname} {names}")
        m = mx.discretize(to="mc")
        as_chain(ch, m, pts, ww, "mixture:mc")
        ch.same(mx.d, P.shape[1], "mixture:d")
        ch.state(iname, sorted(names.items()))

    # ---------------------------------------------------------------- draws
    def draws(ch):
        kind = ch.pick("kind", ["bernouilli", "finite", "constant", "unormal", "normal", "uniform", "product", "mixture"])
        T, N = ch.pick("T", [1, 3]), ch.pick("N", [1, 4])

        def both(law, want, sig):
            np.random.seed(3)
            x = law.draw(T * N)
            ch.op(n=2)
            ch.close(x, np.repeat(np.array(want, dtype=float)[None, :], T * N, axis=0), sig + ":draw", 1e-12, "draws of a law with one possible value")
            s = law.simulate(N, T)
            ch.close(np.array(s), np.broadcast_to(np.array(want, dtype=float), (T, N, len(want))), sig + ":simulate", 1e-12, "simulation")

        if kind == "bernouilli":
            pi = ch.pick("pi", [0.0, 1.0])
            both(Bernouilli(π=pi), [pi], kind)
        elif kind == "finite":
            k = ch.pick("k", [0, 1, 2])
            P, _ = finite(3, 2, 1)
            both(FiniteDistribution(P, np.eye(3)[k]), P[k], kind)
            both(EquiprobableDistribution(P[k:k + 1]), P[k], kind + ":equi")
        elif kind == "constant":
            mu = ch.pick("mu", [[0.5], [1.0, 2.0]])
            both(ConstantProcess(mu=mu), mu, kind)
        elif kind == "uniform":
            np.random.seed(5)
            a = Uniform(0.0, 1.0).draw(N)
            np.random.seed(5)
            b = Uniform(-2.0, 3.0).draw(N)
            ch.op(n=2)
            ch.close(b, -2 + 5 * a, "uniform", 1e-12, "draws of U(-2,3) against draws of U(0,1)")
        elif kind == "unormal":
            mu, sg = ch.pick("mu", [0.0, 0.7]), ch.pick("sigma", [0.0, 0.5, 2.0])
            np.random.seed(5)
            a = UNormal(σ=1.0).draw(N)
            np.random.seed(5)
            b = UNormal(σ=sg, μ=mu).draw(N)
            ch.op(n=2)
            ch.close(b, mu + sg * a, "unormal", 1e-9, "draws of N(mu, sigma^2) against standard draws")
            ch.same(b.shape, (N, 1), "unormal:shape")
        elif kind == "normal":
            S = np.array(ch.pick("Sigma", [[[0.5]], S2[1], S2[2], S3[0]]), dtype=float)
            c = ch.pick("scale", [0.0, 0.5, 3.0])
            mu = np.array([0.5, -1.0, 2.0])[: len(S)]
            np.random.seed(5)
            a = Normal(Σ=S).draw(N)
            np.random.seed(5)
            b = Normal(Σ=c ** 2 * S, Μ=mu).draw(N)
            ch.op(n=2)
            ch.same(np.shape(b), (N, len(S)), "normal:shape")
            ch.close(b, mu + c * a, "normal", 1e-9, "draws against centered draws")
        elif kind == "product":
            both(ProductDistribution([Bernouilli(π=1.0), ConstantProcess(μ=[3.0, 4.0]), UNormal(σ=0.0, μ=7.0)]), [1.0, 3.0, 4.0, 7.0], kind)
        else:
            iname = ch.pick("index", ["Bernouilli(0.0)", "Bernouilli(1.0)"])
            key = ch.pick("keys", [int, str])
            both(Mixture(index=IDX[iname][0](), distributions={key(0): ConstantProcess(μ=[3.0]), key(1): UNormal(σ=0.0, μ=7.0)}),
                 [3.0] if "0.0" in iname else [7.0], kind)
        ch.state(kind, T, N, ch.trace)

    # ---------------------------------------------------------------- frequencies
    def frequencies(ch):
        """draws of finite laws, while the random source goes through all its equally spaced outputs"""
        kind = ch.pick("kind", ["bernouilli", "finite", "equiprobable", "product", "mixture", "discretized"])
        n = 4096
        if kind == "bernouilli":
            pi = ch.pick("pi", [0.0, 0.1, 0.5, 0.75, 1.0])
            law, pts, w = Bernouilli(π=pi), np.array([[0.0], [1.0]]), np.array([1 - pi, pi])
        elif kind in ("finite", "product"):
            k, d = ch.pick("points", [1, 2, 3, 5]), ch.pick("d", [1, 2])
            w = np.array(ch.pick("weights", [[1.0] * k, list(range(1, k + 1)), [0.0] * (k - 1) + [1.0], [1.0] + [0.0] * (k - 1)]), dtype=float)
            w = w / w.sum()
            pts, _ = finite(k, d, 1)
            law = FiniteDistribution(pts, w)
            if kind == "product":
                law = ProductDistribution([ConstantProcess(μ=[3.0]), law])
                pts = np.column_stack([np.full(k, 3.0), pts])
        elif kind == "equiprobable":
            k, d = ch.pick("points", [1, 2, 3, 5, 8]), ch.pick("d", [1, 2])
            pts, _ = finite(k, d, 1)
            law, w = EquiprobableDistribution(pts), np.full(k, 1 / k)
        elif kind == "mixture":
            pi = ch.pick("pi", [0.0, 0.25, 0.5, 1.0])
            key = ch.pick("keys", [int, str])
            law = Mixture(index=Bernouilli(π=pi), distributions={key(1): ConstantProcess(μ=[3.0]), key(0): ConstantProcess(μ=[4.0])})
            pts, w = np.array([[4.0], [3.0]]), np.array([1 - pi, pi])
        else:
            N = ch.pick("N", [2, 3, 5])
            law = UNormal(σ=1.0).discretize(N=N, method=ch.pick("method", ["equiprobable", "gauss-hermite"]))
            pts, w = np.array([law.point(i) for i in range(N)]), np.array([law.weight(i) for i in range(N)])
        how = ch.pick("how", ["draw", "simulate"])
        with kit.enumerated_random(12):
            x = law.draw(n) if how == "draw" else np.array(law.simulate(64, n // 64)).reshape((n, -1))
        ch.op()
        ch.same(np.shape(x), (n, pts.shape[1]), "frequencies:shape")
        hit = (np.abs(x[:, None, :] - pts[None, :, :]) < 1e-12).all(axis=2)
        ch.check(hit.any(axis=1).all(), "frequencies:support", "a value which is not in the support was drawn")
        f = hit.mean(axis=0)
        ch.check((f[w == 0] == 0).all(), "frequencies:impossible", f"frequencies {f}, probabilities {w}")
        ch.check((np.abs(f - w) <= 5 * np.sqrt(w * (1 - w) / n) + 4 / n).all(), "frequencies:probabilities", f"frequencies {f}, probabilities {w}")
        ch.state(kind, ch.trace)

    # ---------------------------------------------------------------- model files
    TEXT = """
symbols:
    exogenous: [e, v]
    states: [k]
    controls: [i]
    parameters: [sg, mm, lo]
equations:
    arbitrage: |
        i[t] - k[t]
    transition: |
        k[t] = i[t-1] + e[t] + v[t]
calibration:
    sg: 0.2
    mm: 0.5
    lo: sg - 1
    k: 1
    i: 1
domain:
    k: [0, 1]
{exo}
options:
    grid: !Cartesian
        orders: [3]
"""
    one = {
        "!UNormal\n        σ: sg\n        μ: mm": lambda sg, mm: UNormal(σ=sg, μ=mm),
        "!UNormal\n        sigma: sg^2\n        mu: -mm": lambda sg, mm: UNormal(σ=sg ** 2, μ=-mm),
        "!UNormal\n        sigma: sg": lambda sg, mm: UNormal(σ=sg),
        "!LogNormal\n        sigma: sg\n        mu: mm": lambda sg, mm: LogNormal(σ=sg, μ=mm),
        "!Uniform\n        a: lo\n        b: mm+1": lambda sg, mm: Uniform(sg - 1, mm + 1),
        "!Beta\n        α: 2*sg\n        β: mm": lambda sg, mm: Beta(2 * sg, mm),
        "!Normal\n        Σ: [[sg^2]]\n        Μ: [mm]": lambda sg, mm: Normal(Σ=[[sg ** 2]], Μ=[mm]),
        "!Normal\n        Sigma: [[sg^2]]": lambda sg, mm: Normal(Σ=[[sg ** 2]]),
        "!Bernouilli\n        π: sg": lambda sg, mm: Bernouilli(π=sg),
        "!ConstantProcess\n        μ: [mm]": lambda sg, mm: ConstantProcess(μ=[mm]),
        "!Mixture\n        index: !Bernouilli\n            π: sg\n        distributions:\n            0: !UNormal\n                σ: mm\n            1: !Uniform\n                a: lo\n                b: mm":
            lambda sg, mm: Mixture(index=Bernouilli(π=sg), distributions={0: UNormal(σ=mm), 1: Uniform(sg - 1, mm)}),
    }
    joint = {
        "!Normal\n        Σ: [[sg^2, 0.01], [0.01, mm]]\n        Μ: [mm, sg]": lambda sg, mm: Normal(Σ=[[sg ** 2, 0.01], [0.01, mm]], Μ=[mm, sg]),
        "!ConstantProcess\n        μ: [mm, sg]": lambda sg, mm: ConstantProcess(μ=[mm, sg]),
    }

    def files(ch):
        if ch.flag("joint"):
            t = ch.pick("law", list(joint))
            if ch.flag("named"):
                exo = f"exogenous:\n    e, v: {t}"
            else:
                exo = "exogenous: " + t.replace("\n    ", "\n")
            mk = joint[t]
        else:
            a = ch.pick("e", list(one))
            b = ch.pick("v", list(one))
            if ch.flag("named"):
                exo = f"exogenous:\n    e: {a}\n    v: {b}"
            else:
                exo = f"exogenous: !Product\n    - {a}\n    - {b}"
            mk = lambda sg, mm: ProductProcess(one[a](sg, mm), one[b](sg, mm))
        m = model(TEXT.replace("{exo}", exo))
        for sg, mm in [(0.2, 0.5), (0.4, 0.25)]:
            m.set_calibration(sg=sg, mm=mm)
            ref = mk(sg, mm).discretize(to="iid")
            got = m.exogenous.discretize(to="iid")
            ch.op(n=2)
            P, w = content(ch, got, "files")
            rP, rw = content(ch, ref, "files")
            ch.close(P, rP, "files:points", 1e-12, exo)
            ch.close(w, rw, "files:weights", 1e-12, exo)
            ch.same(m.exogenous.d, 2, "files:d")
            g, d = m.discretize()
            P, w = content(ch, d, "files")
            ch.close(P, rP, "files:model.discretize", 1e-12, exo)
        ch.state(exo)

    exp.explore("gauss-hermite-1", gh1)
    exp.explore("equiprobable", equi)
    exp.explore("gauss-hermite-n", ghn)
    exp.explore("discrete", discrete)
    exp.explore("product", product)
    exp.explore("options", options)
    exp.explore("mixture", mixture)
    exp.explore("draws", draws)
    exp.explore("frequencies", frequencies)
    exp.explore("files", files)
