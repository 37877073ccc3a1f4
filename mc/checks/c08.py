"""C08  discretization of persistent shocks: markov chains and products of chains.

All processes of a menu (dimension, autocorrelation, covariance, mean, number of nodes),
all products of up to three processes; the chain is judged by what it implies: conditional
means at every node, stationary mean and covariance, joint transition probabilities.
"""
import itertools
import math
import statistics

import numpy as np

from mc import kit
from mc.kit import dolo, model

from dolo.numeric.distribution import Bernouilli, FiniteDistribution, UNormal, Uniform
from dolo.numeric.processes import AR1, VAR1, MarkovChain, Product, ProductProcess
from dolo.numeric.discretization import multidimensional_discretization, tauchen, tensor_markov

ND = statistics.NormalDist()


def content(ch, mc, sig):
    n = mc.n_nodes
    V = np.array([mc.node(i) for i in range(n)], dtype=float)
    P = np.array([[mc.iweight(i, j) for j in range(mc.n_inodes(i))] for i in range(n)], dtype=float)
    ch.same(P.shape, (n, n), sig + ":shape")
    ch.close(mc.values, V, sig + ":values", 0)
    ch.close(mc.nodes, V, sig + ":nodes", 0)
    ch.close(mc.transitions, P, sig + ":transitions", 0)
    for i in range(n):
        ch.close(np.array([mc.inode(i, j) for j in range(n)], dtype=float), V, sig + ":inode", 0)
        it = list(mc.iteritems(i))
        keep = P[i] > 1e-16
        ch.close([float(w) for w, _ in it], P[i][keep], sig + ":iteritems", 0)
        ch.close(np.array([x for _, x in it], dtype=float), V[keep], sig + ":iteritems", 0)
    ch.check((P >= -1e-14).all() and np.allclose(P.sum(axis=1), 1, atol=1e-12), sig + ":probabilities", f"{P}")
    g = mc.grid
    ch.same(int(g.n_nodes), n, sig + ":grid-n")
    ch.close(g.nodes, V, sig + ":grid-nodes", 0)
    for i in range(n):
        ch.close(g.node(i), V[i], sig + ":grid-node", 0)
    return V, P


def stationary(P):
    n = len(P)
    A = np.vstack([P.T - np.eye(n), np.ones(n)])
    return np.linalg.lstsq(A, np.concatenate([np.zeros(n), [1.0]]), rcond=None)[0]


def implied(ch, V, P, rho, S, mu, sig, second=True):
    """conditional means at each node, stationary moments"""
    ch.close(P @ V, mu + rho * (V - mu), sig + ":conditional-mean", 1e-9, "expectation of the next value at each node")
    pi = stationary(P)
    ch.close(pi @ V, mu, sig + ":mean", 1e-8, "stationary mean")
    if second:
        c = V - mu
        G = S / (1 - rho ** 2)
        ch.close(np.einsum("n,ni,nj->ij", pi, c, c), G, sig + ":covariance", 1e-7, "stationary covariance")
        ch.close(np.einsum("n,ni,nm,mj->ij", pi, c, P, c), rho * G, sig + ":autocovariance", 1e-7, "stationary autocovariance")


def run(exp):
    kit.use_fast()
    exp.assume("processes, numbers of nodes and products from the menus of mc/checks/c08.py (up to 3 dimensions, up to 3 factors)")
    RHO = [-0.5, 0.0, 0.3, 0.9, 0.99]

    def one(ch):
        rho, sg, mu = ch.pick("rho", RHO), ch.pick("sigma", [0.1, 2.0]), ch.pick("mu", [None, 1.5, -0.2])
        N = ch.pick("N", [None] + list(range(1, exp.q(7, 15))))
        kind = ch.pick("class", ["VAR1", "AR1", "latin", "matrix"])
        if kind == "AR1":
            p = AR1(ρ=rho, σ=sg) if mu is None else AR1(rho=rho, sigma=sg, mu=mu)
        elif kind == "VAR1":
            p = VAR1(ρ=rho, Σ=[[sg ** 2]]) if mu is None else VAR1(ρ=rho, Σ=[[sg ** 2]], μ=[mu])
        elif kind == "latin":
            p = VAR1(rho=rho, Sigma=[[sg ** 2]]) if mu is None else VAR1(rho=[rho], Sigma=[[sg ** 2]], mu=[mu])
        else:
            p = VAR1(ρ=[[rho]], Σ=sg ** 2) if mu is None else VAR1(ρ=np.array([[rho]]), Σ=np.array([[sg ** 2]]), μ=np.array([mu]))
        m = np.array([0.0 if mu is None else mu])
        n = 3 if N is None else N
        ref = None
        for how in ("default", "mc", "method"):
            kw = {} if N is None else dict(N=N)
            d = p.discretize(**kw) if how == "default" else p.discretize(to="mc", **kw) if how == "mc" else p.discretize_mc(**kw)
            ch.op()
            V, P = content(ch, d, "one")
            ch.same(V.shape, (n, 1), "one:n")
            if n >= 2:
                implied(ch, V, P, rho, np.array([[sg ** 2]]), m, "one")
                z = V[:, 0]
                ch.close(np.diff(z), np.full(n - 1, (z[-1] - z[0]) / (n - 1)), "one:spacing", 1e-9, "equally spaced nodes")
                ch.check(z[-1] > z[0], "one:order", "nodes are increasing")
            else:
                ch.close(V, m[None, :], "one:single", 1e-12, "a single node is the mean")
            if ref is not None:
                ch.close(V, ref, "one:forms", 0)
            ref = V
        ch.state(rho, sg, m, n)

    S2 = [
        [[1.0, 0.0], [0.0, 4.0]], [[0.5, 0.2], [0.2, 0.3]], [[1.0, -1.0], [-1.0, 2.0]], [[0.04, 0.0], [0.0, 0.0]],
        [[0.0, 0.0], [0.0, 0.09]],
    ]
    S3 = [
        [[1.0, 0.2, 0.1], [0.2, 2.0, -0.3], [0.1, -0.3, 0.5]], [[1.0, 0.0, 0.4], [0.0, 0.0, 0.0], [0.4, 0.0, 0.5]],
        [[0.25, 0, 0], [0, 1.0, 0], [0, 0, 2.25]],
    ]

    def several(ch):
        d = ch.pick("d", [2, 3])
        S = np.array(ch.pick("Sigma", S2 if d == 2 else S3), dtype=float)
        rho = ch.pick("rho", [0.0, 0.8, -0.4])
        form = ch.pick("form", ["scalar", "vector", "matrix"])
        mu = ch.pick("mu", [None, [0.5, -1.0, 2.0]])
        N = ch.pick("N", range(2, exp.q(4, 6) if d == 2 else exp.q(4, 5)))
        r = rho if form == "scalar" else [rho] * d if form == "vector" else (rho * np.eye(d)).tolist()
        Sg = S.copy()
        p = VAR1(ρ=r, Σ=Sg) if mu is None else VAR1(ρ=r, Σ=Sg, μ=mu[:d])
        m = np.zeros(d) if mu is None else np.array(mu[:d])
        for _ in range(2):
            mc = p.discretize(N=N)
            ch.op()
            V, P = content(ch, mc, "several")
            ch.same(V.shape, (N ** d, d), "several:n")
            implied(ch, V, P, rho, S, m, "several")
            ch.close(p.Σ, S, "several:process-changed", 0)
            ch.close(Sg, S, "several:argument-changed", 0)
            ch.close(p.ρ, rho * np.eye(d), "several:process-changed", 0)
            ch.close(p.μ, m, "several:process-changed", 0)
        ch.state(S, rho, m, N)

    def refused(ch):
        r = ch.pick("rho", [[0.9, 0.8], [[0.9, 0.1], [0.0, 0.9]], [[0.5, 0.0], [0.0, 0.4]], [[0.9, 0.0], [-0.2, 0.9]]])
        p = VAR1(ρ=r, Σ=[[0.1, 0.0], [0.0, 0.2]])
        to = ch.pick("to", ["mc", "gdp", "iid", "unknown"])
        ch.raises(lambda: p.discretize(to=to), "refused", f"rho={r} to={to}")
        if to in ("iid", "unknown"):
            ch.raises(lambda: VAR1(ρ=0.5, Σ=[[0.1]]).discretize(to=to), "refused", f"to={to}")
            ch.raises(lambda: AR1(ρ=0.5, σ=0.1).discretize(to=to), "refused", f"to={to}")
            ch.raises(lambda: MarkovChain([[1.0]], [[1.0]]).discretize(to=to), "refused", f"to={to}")
            ch.raises(lambda: UNormal(σ=0.1).discretize(to="unknown"), "refused", f"to={to}")
        ch.op()
        ch.state(r, to)

    def tauch(ch):
        N, mu, rho, sg, m = ch.pick("N", [2, 3, 5]), ch.pick("mu", [0.0, 1.5]), ch.pick("rho", [0.0, 0.5, 0.9]), ch.pick("sigma", [0.1, 1.0]), ch.pick("m", [1.5, 3])
        Z, P = tauchen(N, mu, rho, sg, m)
        ch.op()
        sd = sg / math.sqrt(1 - rho ** 2)
        z = [-m * sd + 2 * m * sd * i / (N - 1) for i in range(N)]
        h = (z[1] - z[0]) / 2
        want = np.zeros((N, N))
        for i in range(N):
            for j in range(N):
                up = 1.0 if j == N - 1 else ND.cdf((z[j] + h - rho * z[i]) / sg)
                lo = 0.0 if j == 0 else ND.cdf((z[j] - h - rho * z[i]) / sg)
                want[i, j] = up - lo
        ch.close(np.asarray(Z).ravel(), np.array(z) + mu, "tauchen:nodes", 1e-9)
        ch.close(P, want, "tauchen:transitions", 1e-9)
        if mu == 0.0:
            S = np.array([[0.5, 0.2], [0.2, 0.3]])
            V, Q = multidimensional_discretization(rho, S, N=N, method="tauchen", m=m)
            W, R = multidimensional_discretization(rho, S / sg ** 2 * sg ** 2, N=N, method="tauchen", m=m)
            ch.same(V.shape, (N * N, 2), "tauchen:multi")
            z1 = np.array([-m / math.sqrt(1 - rho ** 2) * (1 - 2 * i / (N - 1)) for i in range(N)])
            E = np.array(list(itertools.product(z1, z1)))
            # same law up to the factor of the covariance: second moments of the nodes
            ch.close(V.T @ V, (E ** 2).sum(axis=0)[0] * S, "tauchen:multi-nodes", 1e-9)
            _, P1 = tauchen(N, 0, rho, 1, m)
            ch.close(Q, np.kron(P1, P1), "tauchen:multi-transitions", 1e-9)
        ch.state(N, mu, rho, sg, m)

    # ------------------------------------------------------------ products
    def chain(n, d, seed):
        V = np.array([[((5 * i + 3 * j * j + seed) % 13) / 4 - 1 + 0.01 * i for j in range(d)] for i in range(n)])
        T = np.array([[1.0 + (i * 3 + j * 2 + seed) % 5 for j in range(n)] for i in range(n)])
        return V, T / T.sum(axis=1)[:, None]

    factors = {}
    for n, d, s in [(1, 1, 0), (2, 1, 1), (3, 1, 2), (2, 2, 3), (3, 2, 4)]:
        V, T = chain(n, d, s)
        factors[f"MC({n},{d})"] = lambda V=V, T=T: (MarkovChain(transitions=T.tolist(), values=V.tolist()), V, T)
    V, T = chain(3, 1, 7)
    T = np.array([[0.0, 1.0, 0.0], [0.5, 0.0, 0.5], [0.0, 0.0, 1.0]])
    factors["MC(zeros)"] = lambda V=V, T=T: (MarkovChain(T, V), V, T)

    def rouw2(rho, sg, mu):
        nu = sg / math.sqrt(1 - rho ** 2) * math.sqrt(2)
        p = (1 + rho) / 2
        T = np.array([[p * p, 2 * p * (1 - p), (1 - p) ** 2], [p * (1 - p), p * p + (1 - p) ** 2, p * (1 - p)], [(1 - p) ** 2, 2 * p * (1 - p), p * p]])
        return mu + np.array([[-nu], [0.0], [nu]]), T

    factors["VAR1"] = lambda: (VAR1(ρ=0.7, Σ=[[0.04]], μ=[1.0]),) + rouw2(0.7, 0.2, 1.0)
    factors["AR1"] = lambda: (AR1(ρ=0.5, σ=0.3, μ=-1.0),) + rouw2(0.5, 0.3, -1.0)
    factors["UNormal"] = lambda: (
        UNormal(σ=0.5, μ=0.3), np.array([[0.3 + 0.5 * ND.inv_cdf((i + 0.5) / 5)] for i in range(5)]), np.full((5, 5), 0.2))
    factors["Bernouilli"] = lambda: (Bernouilli(π=0.3), np.array([[0.0], [1.0]]), np.array([[0.7, 0.3]] * 2))
    persistent = [k for k in factors if k[0] != "U" and k[0] != "B"]
    few = ["MC(2,1)", "MC(3,2)", "MC(zeros)", "AR1", "Bernouilli"]

    def product(ch):
        k = ch.pick("factors", [1, 2, 3])
        names = [ch.pick(f"f{i}", list(factors) if k < 3 else few) for i in range(k)]
        how = ch.pick("how", ["ProductProcess", "Product", "tensor_markov"])
        to = ch.pick("to", [None, "mc"])
        if to is None and (how == "tensor_markov" or not any(n in persistent for n in names)):
            ch.prune()
        procs, Vs, Ts = zip(*[factors[n]() for n in names])
        if how == "tensor_markov":
            V, P = tensor_markov(*[(a, b) for a, b in zip(Vs, Ts)])
        else:
            pr = (ProductProcess if how == "ProductProcess" else Product)(*procs)
            mc = pr.discretize(to=to)
            ch.op()
            V, P = content(ch, mc, "product")
            ch.same(pr.d, sum(v.shape[1] for v in Vs), "product:d")
        idx = list(itertools.product(*[range(len(t)) for t in Ts]))
        ch.same(V.shape, (len(idx), sum(v.shape[1] for v in Vs)), "product:shape")
        want = {}
        for a in idx:
            want[tuple(np.round(np.concatenate([v[i] for v, i in zip(Vs, a)]), 8) + 0.0)] = a
        ch.same(len(want), len(idx), "harness:distinct-values")
        got = []
        for v in V:
            key = tuple(np.round(v, 8) + 0.0)
            ch.check(key in want, "product:values", lambda: f"{names}: node {v} is no combination of the nodes of the factors")
            got.append(want[key])
        ch.same(len(set(got)), len(idx), "product:values")
        Q = np.array([[math.prod(float(t[i, j]) for t, i, j in zip(Ts, a, b)) for b in got] for a in got])
        ch.close(P, Q, "product:transitions", 1e-9, str(names))
        ch.state(names)

    def options(ch):
        N = [ch.pick("N0", [2, 3]), ch.pick("N1", [1, 2, 4])]
        shared = ch.flag("shared")
        pr = ProductProcess(VAR1(ρ=0.7, Σ=[[0.04]], μ=[1.0]), UNormal(σ=0.5))
        if shared:
            N[1] = N[0]
            d = pr.discretize(to=ch.pick("to", [None, "mc"]), options=dict(N=N[0]))
        else:
            d = pr.discretize(to=ch.pick("to", [None, "mc"]), options=[dict(N=N[0]), dict(N=N[1], method="equiprobable")])
        ch.op()
        V, P = content(ch, d, "options")
        ch.same(len(V), N[0] * N[1], "options:n")
        ch.close((P @ V)[:, 0], 1 + 0.7 * (V[:, 0] - 1), "options:conditional-mean", 1e-9)
        ch.close((P @ V)[:, 1], np.zeros(len(V)), "options:conditional-mean", 1e-9)
        ch.close(sorted(set(np.round(V[:, 1], 9) + 0.0)), [round(0.5 * ND.inv_cdf((i + 0.5) / N[1]), 9) + 0.0 for i in range(N[1])], "options:nodes", 1e-7)
        ch.state(N, shared)

    # ------------------------------------------------------------ generalized discretization
    def gdp(ch):
        kind = ch.pick("class", ["VAR1", "AR1", "MarkovChain"])
        if kind == "MarkovChain":
            V, T = chain(3, 2, ch.pick("seed", range(5)))
            mc = MarkovChain(T, V)
            g = mc.discretize(to="gdp")
            ch.op()
            ch.same(g.n_nodes, 3, "gdp:n")
            for i in range(3):
                ch.close(g.node(i), V[i], "gdp:mc-node", 0)
                ch.close([g.iweight(i, j) for j in range(g.n_inodes(i))], T[i], "gdp:mc-weights", 0)
                ch.close(np.array([g.inode(i, j) for j in range(g.n_inodes(i))]), V, "gdp:mc-inodes", 0)
            ch.close(g.grid.nodes, V, "gdp:mc-grid", 0)
            ch.check(mc.discretize() is mc and mc.discretize(to="mc") is mc, "gdp:itself")
            ch.state(V)
            return
        rho, sg, mu, N = ch.pick("rho", RHO), ch.pick("sigma", [0.1, 2.0]), ch.pick("mu", [0.0, 1.5]), ch.pick("N", [2, 3, 6])
        p = AR1(ρ=rho, σ=sg, μ=mu) if kind == "AR1" else VAR1(ρ=rho, Σ=[[sg ** 2]], μ=[mu])
        g = p.discretize(to="gdp", N=N) if ch.flag("method") else p.discretize_gdp(N=N)
        ch.op()
        ch.same(g.n_nodes, N, "gdp:n")
        nodes = np.array([g.node(i) for i in range(N)])
        ch.close(g.nodes, nodes, "gdp:nodes", 0)
        ch.close(g.grid.nodes, nodes, "gdp:grid", 1e-12, "nodes of the grid")
        ch.close(nodes.mean(axis=0), [mu], "gdp:center", 1e-9, "nodes are around the mean")
        ch.check((np.diff(nodes[:, 0]) > 0).all(), "gdp:order")
        for i in range(N):
            n = g.n_inodes(i)
            w = np.array([g.iweight(i, j) for j in range(n)], dtype=float)
            x = np.array([g.inode(i, j)[0] for j in range(n)], dtype=float)
            ch.close(w.sum(), 1.0, "gdp:weights", 1e-12)
            e = x - (mu + rho * (nodes[i, 0] - mu))
            ch.close([w @ e, w @ e ** 2, w @ e ** 3, w @ e ** 4], [0.0, sg ** 2, 0.0, 3 * sg ** 4], "gdp:innovations", 1e-8, "moments of the innovations")
            it = list(g.iteritems(i))
            ch.same(len(it), n, "gdp:iteritems")
        ch.state(rho, sg, mu, N)

    # ------------------------------------------------------------ model files
    TEXT = """
symbols:
    exogenous: [e, v]
    states: [k]
    controls: [i]
    parameters: [r, sg, mm]
equations:
    arbitrage: |
        i[t] - k[t]
    transition: |
        k[t] = i[t-1] + e[t] + v[t]
calibration:
    r: 0.5
    sg: 0.2
    mm: r + sg
    k: 1
    i: 1
domain:
    k: [0, 1]
{exo}
options:
    grid: !Cartesian
        orders: [3]
"""
    one_t = {
        "!VAR1\n        ρ: r\n        Σ: [[sg^2]]\n        μ: [mm]": lambda r, sg, mm: VAR1(ρ=r, Σ=[[sg ** 2]], μ=[mm]),
        "!VAR1\n        rho: r\n        Sigma: [[sg]]": lambda r, sg, mm: VAR1(ρ=r, Σ=[[sg]]),
        "!AR1\n        rho: r\n        sigma: sg": lambda r, sg, mm: AR1(ρ=r, σ=sg),
        "!AR1\n        ρ: r\n        σ: sg\n        μ: mm": lambda r, sg, mm: AR1(ρ=r, σ=sg, μ=mm),
        "!MarkovChain\n        values: [[-sg], [sg]]\n        transitions: [[r, 1-r], [sg, 1-sg]]":
            lambda r, sg, mm: MarkovChain([[r, 1 - r], [sg, 1 - sg]], [[-sg], [sg]]),
        "!UNormal\n        σ: sg": lambda r, sg, mm: UNormal(σ=sg),
        "!Uniform\n        a: mm\n        b: mm+1": lambda r, sg, mm: Uniform(mm, mm + 1),
    }
    joint = {
        "!VAR1\n        ρ: r\n        Σ: [[sg^2, 0.01], [0.01, mm]]\n        μ: [mm, sg]": lambda r, sg, mm: VAR1(ρ=r, Σ=[[sg ** 2, 0.01], [0.01, mm]], μ=[mm, sg]),
        "!MarkovChain\n        values: [[-sg, r], [sg, mm]]\n        transitions: [[r, 1-r], [sg, 1-sg]]":
            lambda r, sg, mm: MarkovChain([[r, 1 - r], [sg, 1 - sg]], [[-sg, r], [sg, mm]]),
    }

    def files(ch):
        if ch.flag("joint"):
            t = ch.pick("law", list(joint))
            exo = f"exogenous:\n    e, v: {t}" if ch.flag("named") else "exogenous: " + t.replace("\n    ", "\n")
            mk = joint[t]
        else:
            a, b = ch.pick("e", list(one_t)), ch.pick("v", list(one_t))
            if max(list(one_t).index(a), list(one_t).index(b)) >= 5 and min(list(one_t).index(a), list(one_t).index(b)) >= 5:
                ch.prune()
            exo = f"exogenous:\n    e: {a}\n    v: {b}" if ch.flag("named") else f"exogenous: !Product\n    - {a}\n    - {b}"
            mk = lambda r, sg, mm: ProductProcess(one_t[a](r, sg, mm), one_t[b](r, sg, mm))
        m = model(TEXT.replace("{exo}", exo))
        for cal in [dict(r=0.5, sg=0.2), dict(r=0.25, sg=0.4)]:
            m.set_calibration(**cal)
            ref = mk(cal["r"], cal["sg"], cal["r"] + cal["sg"]).discretize()
            got = m.exogenous.discretize()
            g, d = m.discretize()
            ch.op(n=3)
            for x in (got, d):
                V, P = content(ch, x, "files")
                ch.close(V, ref.values, "files:values", 1e-12, exo)
                ch.close(P, ref.transitions, "files:transitions", 1e-12, exo)
        ch.state(exo)

    exp.explore("one", one)
    exp.explore("several", several)
    exp.explore("refused", refused)
    exp.explore("tauchen", tauch)
    exp.explore("product", product)
    exp.explore("options", options)
    exp.explore("gdp", gdp)
    exp.explore("files", files)
