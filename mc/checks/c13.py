"""C13  transition matrices and ergodic distributions.

All small models: the transition matrix is recomputed by an independent allocation of every
destination to the surrounding nodes; the distribution must be invariant, and the only one.
"""
import itertools

import numpy as np

from mc import kit
from mc.kit import dolo, model

from dolo.algos.ergodic import ergodic_distribution, trembling_hand
from dolo.numeric.decision_rule import DecisionRule
from dolo.numeric.grids import EmptyGrid, UniformCartesianGrid

SHOCK = {
    "mc1": "!MarkovChain\n    values: [[0.1]]\n    transitions: [[1.0]]",
    "mc2": "!MarkovChain\n    values: [[-0.2],[0.3]]\n    transitions: [[0.9,0.1],[0.4,0.6]]",
    "mc3": "!MarkovChain\n    values: [[-0.2],[0.3],[0.3]]\n    transitions: [[0.5,0.5,0.0],[0.25,0.25,0.5],[0.5,0.0,0.5]]",
    "unormal": "!UNormal\n    sigma: 0.2",
    "unormal-mean": "!UNormal\n    sigma: 0.2\n    mu: 0.1",
}
_mem = {}


def build(shock, states, rho):
    key = (shock, states, rho)
    if key not in _mem:
        eqs = {"z": "z[t] = rho*z[t-1] + e[t] + 0.1*e[t-1]", "k": "k[t] = 0.8*k[t-1] + i[t-1] + 0.3*e[t]"}
        if "z" in states and "k" in states:
            eqs["k"] += " - 0.1*z[t-1]"
        dom = {"z": "z: [-1, 1.5]", "k": "k: [0, 2]"}
        nl, il = "\n        ", "\n    "
        _mem[key] = model(f"""
name: ergo
symbols:
    exogenous: [e]
    states: [{', '.join(states)}]
    controls: [i]
    parameters: [rho]
equations:
    arbitrage: |
        i[t] - {states[0]}[t]
    transition: |
        {nl.join(eqs[s] for s in states)}
calibration:
    rho: {rho}
    e: 0.05
    z: 0.1
    k: 1.0
    i: 0.2
domain:
    {il.join(dom[s] for s in states)}
exogenous: {SHOCK[shock]}
""")
    return _mem[key]


def rule(states, e, S):
    d = dict(zip(states, S.T))
    out = 0.25 + 0.3 * e
    if "k" in d:
        out = out - 0.2 * d["k"]
    if "z" in d:
        out = out + 0.15 * d["z"]
    return out


def nxt(states, rho, e, S, i, E):
    d = dict(zip(states, S.T))
    o = {}
    if "z" in d:
        o["z"] = rho * d["z"] + E + 0.1 * e
    if "k" in d:
        o["k"] = 0.8 * d["k"] + i + 0.3 * E - (0.1 * d["z"] if "z" in d else 0)
    return np.column_stack([o[s] for s in states])


def allot(ax, x):
    """weights of the nodes of one axis for a point, the nearest border outside"""
    x = min(max(x, ax[0]), ax[-1])
    w = np.zeros(len(ax))
    h = ax[1] - ax[0]
    for j, a in enumerate(ax):
        w[j] = max(0.0, 1 - abs(x - a) / h)
    return w


def run(exp):
    kit.use_fast()
    exp.assume("models of the family of mc/checks/c13.py with one or two states and at most three exogenous states")

    def matrices(ch):
        shock = ch.pick("shock", list(SHOCK))
        states = ch.pick("states", [("z",), ("k",), ("z", "k"), ("k", "z")])
        rho = ch.pick("rho", [0.0, 0.5, 0.9, 1.3])
        n = ch.pick("n", [(2, 2), (3, 2), (2, 4), (5, 3), (7, 4)])[: len(states)]
        method = ch.pick("method", ["linear", "cubic"])
        m = build(shock, states, rho)
        dom = {"z": (-1.0, 1.5), "k": (0.0, 2.0)}
        ax = [np.linspace(*dom[s], k) for s, k in zip(states, n)]
        S = np.array(list(itertools.product(*ax)))
        endo = m.domain.discretize(n=list(n))
        iid = shock.startswith("unormal")
        if iid:
            opts = ch.pick("points", [{"N": 3}, {"method": "equiprobable", "N": 4}])
            dp = m.exogenous.discretize(to="iid", **opts)
            V = rule(states, 0.0, S)[None, :, None]
        else:
            dp = m.exogenous.discretize()
            V = np.array([rule(states, v[0], S)[:, None] for v in dp.values])
        dr = DecisionRule(dp.grid, endo, method, dprocess=dp, values=V)
        # the matrix alone, then with the distribution
        P = ergodic_distribution(m, dr, dr.exo_grid, dr.endo_grid, dp, compute_μ=False)
        ch.op()
        n_s = len(S)

        def row(e, E, s, i):
            x = nxt(states, rho, e, s[None, :], i, E)[0]
            w = np.ones(1)
            for a, c in zip(ax, x):
                w = np.outer(w, allot(a, c)).ravel()
            return w

        if iid:
            want = np.zeros((n_s, n_s))
            e = 0.05
            for q in range(n_s):
                for j in range(dp.n_inodes(0)):
                    want[q] += dp.weights[j] * row(e, dp.points[j][0], S[q], V[0, q, 0])
            ch.same(P.shape, (n_s, n_s), "matrices:shape")
            ch.close(P, want, "matrices:transitions", 1e-9)
            flat, N = P, n_s
            dims = n
        else:
            K = len(dp.values)
            want = np.zeros((K, n_s, K, n_s))
            for a in range(K):
                for b in range(K):
                    for q in range(n_s):
                        want[a, q, b] = dp.transitions[a, b] * row(dp.values[a, 0], dp.values[b, 0], S[q], V[a, q, 0])
            ch.same(P.shape, want.shape, "matrices:shape")
            ch.close(P, want, "matrices:transitions", 1e-9)
            N = K * n_s
            flat = P.reshape((N, N))
            dims = (K,) + tuple(n)
        ch.close(flat.sum(axis=1), np.ones(N), "matrices:rows", 1e-9, "probabilities add up to one")
        ch.check((flat >= -1e-12).all(), "matrices:positive", "negative probability")
        ref = want.reshape((N, N))
        # number of invariant laws: a unique one is judged
        sv = np.linalg.svd(ref.T - np.eye(N), compute_uv=False)
        if not (N == 1 or sv[-2] > 1e-6):
            ch.state(shock, states, rho, n, method)
            return
        P2, mu = ergodic_distribution(m, dr)
        ch.op()
        ch.close(P2, P, "matrices:same", 0)
        ch.same(mu.shape, tuple(dims), "matrices:mu-shape")
        names = list(states) if iid else ["i_m"] + list(states)
        ch.same(list(mu.dims), names, "matrices:dims")
        for s, a in zip(states, ax):
            ch.close(mu.coords[s], a, "matrices:coords", 1e-12)
        v = np.asarray(mu).ravel()
        A = np.vstack([ref.T - np.eye(N), np.ones((1, N))])
        w = np.linalg.lstsq(A, np.concatenate([np.zeros(N), [1.0]]), rcond=None)[0]
        ch.close(v, w, "matrices:invariant", 1e-6, "invariant distribution")
        ch.close(v @ ref, v, "matrices:invariant", 1e-8)
        ch.close(v.sum(), 1.0, "matrices:sum", 1e-8)
        ch.check((v > -1e-8).all(), "matrices:mu-positive", f"{v.min()}")
        ch.state(shock, states, rho, n, method)

    def allocation(ch):
        """trembling_hand adds w times the weights of the destination to what is there"""
        nd = ch.pick("dim", [1, 2])
        n = [ch.pick(f"n{k}", [2, 3, 5]) for k in range(nd)]
        vals = [-0.5, 0.0, 0.2, 0.25, 0.5, 0.8, 1.0, 1.7]
        x = np.array([[ch.pick(f"x{k}", vals) for k in range(nd)]] + [[0.5] * nd])
        w = ch.pick("w", [1.0, 0.3])
        A = np.full([2] + n, ch.pick("before", [0.0, 2.0]))
        keep, xk = A.copy(), x.copy()
        trembling_hand(A, x, w)
        ch.op()
        ch.close(x, xk, "allocation:argument", 0)
        for r in range(2):
            W = np.ones(1)
            for k in range(nd):
                W = np.outer(W, allot(np.linspace(0, 1, n[k]), x[r, k])).ravel()
            ch.close(A[r], keep[r] + w * W.reshape(n), "allocation", 1e-12, f"{x[r]}")
        ch.state(n, x, w, keep[0].ravel()[0])

    # compiled once, shared by the workers
    for nd in (1, 2):
        trembling_hand(np.zeros((1,) + (2,) * nd), np.zeros((1, nd)), 1.0)
    exp.explore("matrices", matrices)
    exp.explore("allocation", allocation)
