"""C09  simulated paths and responses of exogenous processes.

Deterministic dynamics (no innovation, markov chains that jump with certainty) are compared
with exact paths for all small processes; random paths are tied to each other by exact
relations under one seed (recursion in rho, scaling in the innovations, shift in the mean).
"""
import itertools

import numpy as np
import xarray as xr

from mc import kit
from mc.kit import dolo, model

from dolo.numeric.distribution import Bernouilli, FiniteDistribution, Mixture, Normal, UNormal, Uniform
from dolo.numeric.processes import AR1, VAR1, ConstantProcess, MarkovChain, ProductProcess, simulate_markov_chain


def run(exp):
    kit.use_fast()
    exp.assume("processes from the menus of mc/checks/c09.py; random paths are judged through relations between paths drawn with one seed")
    R1 = [0.0, 0.9, -0.5]
    R2 = [0.5, [0.9, -0.3], [[0.8, 0.1], [-0.2, 0.5]]]
    R3 = [0.5, [[0.8, 0.1, 0.0], [0.0, 0.5, 0.3], [0.2, 0.0, 0.1]]]

    def mat(r, d):
        r = np.array(r, dtype=float)
        return np.eye(d) * r if r.ndim == 0 else np.diag(r) if r.ndim == 1 else r

    S = {1: np.array([[0.04]]), 2: np.array([[0.5, 0.2], [0.2, 0.3]]), 3: np.array([[1.0, 0.2, 0.1], [0.2, 2.0, -0.3], [0.1, -0.3, 0.5]])}

    def paths(ch):
        d = ch.pick("d", [1, 2, 3])
        r = ch.pick("rho", {1: R1, 2: R2, 3: R3}[d])
        mu = ch.pick("mu", [None, [0.5, -1.0, 2.0]])
        T, N = ch.pick("T", [1, 2, 5]), ch.pick("N", [1, 3])
        m0 = ch.pick("m0", [None, [0.2, -0.1, 0.7]])
        rho = mat(r, d)
        m = np.zeros(d) if mu is None else np.array(mu[:d])
        i0 = m if m0 is None else np.array(m0[:d])
        kw = {} if m0 is None else dict(m0=np.array(m0[:d]))
        kinds = ["VAR1"] + (["AR1"] if d == 1 else [])
        kind = ch.pick("class", kinds)

        def proc(scale, rr=r, mm=m):
            if kind == "AR1":
                return AR1(ρ=float(np.array(rr).ravel()[0]), σ=scale * 0.2, μ=float(mm[0]))
            return VAR1(ρ=rr, Σ=scale ** 2 * S[d], μ=mm)

        # exact path without innovations
        want = np.zeros((T, N, d))
        want[0] = i0
        for t in range(1, T):
            want[t] = m + (want[t - 1] - m) @ rho.T
        keep = None if m0 is None else kw["m0"].copy()
        for p, a in [(proc(1.0), dict(stochastic=False)), (proc(0.0), {})]:
            x = np.array(p.simulate(N, T, **kw, **a))
            ch.op()
            ch.close(x, want, "paths:deterministic", 1e-12, f"path from {i0}")
        if m0 is not None:
            ch.close(kw["m0"], keep, "paths:argument-changed", 0)

        def sim(p, **k):
            np.random.seed(11)
            x = np.array(p.simulate(N, T, **k))
            ch.op()
            return x

        a = sim(proc(1.0), **kw)
        ch.same(a.shape, (T, N, d), "paths:shape")
        ch.close(sim(proc(1.0), **kw), a, "paths:seed", 0, "two simulations with one seed")
        ch.close(a[0], np.repeat(i0[None, :], N, axis=0), "paths:start", 1e-12, "first value")
        b = sim(proc(3.0), **kw)
        ch.close(b - want, 3 * (a - want), "paths:scale", 1e-9, "innovations three times as large")
        # same innovations, no persistence
        e = sim(proc(1.0, 0.0, np.zeros(d)), m0=np.zeros(d))
        rec = np.zeros((T, N, d))
        rec[0] = i0
        for t in range(1, T):
            rec[t] = m + (rec[t - 1] - m) @ rho.T + e[t]
        ch.close(a, rec, "paths:recursion", 1e-9, "m_t = mu + rho (m_{t-1} - mu) + e_t")
        if T > 2:
            ch.check(len(set(np.round(a[1:], 9).ravel())) == (T - 1) * N * d, "paths:independent", "draws are repeated")
        ch.state(rho, m, i0, T, N, kind)

    def responses(ch):
        d = ch.pick("d", [1, 2, 3])
        r = ch.pick("rho", {1: R1, 2: R2, 3: R3}[d])
        mu = ch.pick("mu", [None, [0.5, -1.0, 2.0]])
        T = ch.pick("T", [1, 2, 4])
        imp = np.array([0.3, -0.2, 0.1])[:d] * np.eye(d)[ch.pick("which", range(d))] if ch.flag("single") else np.array([0.3, -0.2, 0.1])[:d]
        rho = mat(r, d)
        m = np.zeros(d) if mu is None else np.array(mu[:d])
        procs = [VAR1(ρ=r, Σ=S[d]) if mu is None else VAR1(ρ=r, Σ=S[d], μ=mu[:d])]
        if d == 1:
            procs.append(AR1(ρ=r, σ=0.2) if mu is None else AR1(ρ=r, σ=0.2, μ=mu[0]))
        want = np.zeros((T + 1, d))
        want[1] = imp
        for t in range(2, T + 1):
            want[t] = rho @ want[t - 1]
        want += m
        named = ch.flag("named")
        for p in procs:
            if named:
                p.names = tuple("abc"[:d])
            x = p.response(T, imp)
            ch.op()
            ch.check(isinstance(x, xr.DataArray), "responses:type", str(type(x)))
            ch.same(x.dims, ("T", "V"), "responses:dims")
            ch.close(x.data, want, "responses:var1", 1e-12, f"response to {imp}")
            ch.same(list(x.coords["V"].data), list("abc"[:d]) if named else [f"_x_{i}" for i in range(d)], "responses:names")
        iid = [Normal(Σ=S[d])] + ([UNormal(σ=0.2)] if d == 1 else [])
        for p in iid:
            if named:
                p.names = tuple("abc"[:d])
            x = p.response(T, imp)
            ch.op()
            w = np.zeros((T + 1, d))
            w[1] = imp
            ch.same(x.dims, ("T", "V"), "responses:dims")
            ch.close(x.data, w, "responses:iid", 1e-12, "response of an iid process")
            ch.same(list(x.coords["V"].data), list("abc"[:d]) if named else [f"_x_{i}" for i in range(d)], "responses:names")
        ch.state(rho, m, T, imp)

    def jumps(ch):
        """markov chains that jump with certainty: all maps of the states to themselves"""
        n = ch.pick("states", range(1, exp.q(4, 5) + 1))
        f = [ch.pick(f"next {i}", range(n)) for i in range(n)]
        T, N = ch.pick("T", [1, 5]), ch.pick("N", [1, 2])
        i0 = ch.pick("i0", [None] + list(range(n)) + (["each"] if N == 2 else []))
        P = np.eye(n)[f]
        V = np.array([[10.0 * i, i * i - 1.0] for i in range(n)])
        start = np.zeros(N, dtype=int) if i0 is None else np.array([n - 1, 0]) if i0 == "each" else np.full(N, i0)
        want = np.zeros((T, N), dtype=int)
        want[0] = start
        for t in range(1, T):
            want[t] = np.array(f)[want[t - 1]]
        kw = {} if i0 is None else dict(i0=start if i0 == "each" else i0)
        mc = MarkovChain(P, V)
        x = mc.simulate(N, T, **kw)
        ch.op()
        ch.close(np.array(x), V[want], "jumps:simulate", 0, f"chain {f} from {start}")
        x = mc.simulate(N, T, stochastic=False, **kw)
        ch.close(np.array(x), V[np.repeat(start[None, :], T, axis=0)], "jumps:constant", 0)
        ind = simulate_markov_chain(V, P, N, T, **kw)
        ch.close(ind, want, "jumps:indices", 0)
        ind, val = simulate_markov_chain(V, P, N, T, return_values=True, **kw)
        ch.close(ind, want, "jumps:indices", 0)
        ch.close(val, V[want], "jumps:values", 0)
        ch.close(mc.transitions, P, "jumps:chain-changed", 0)
        ch.state(f, T, N, start)

    def support(ch):
        """jumps that have no probability never happen; one seed, one path"""
        n = 3
        pos = [ch.pick(f"possible from {i}", [(0, 1), (1, 2), (0, 2), (0, 1, 2)]) for i in range(n)]
        short = ch.pick("rounding", [0.0, 1e-12])
        P = np.zeros((n, n))
        for i in range(n):
            for j in pos[i]:
                P[i, j] = 1 / len(pos[i]) - short
        V = np.arange(n)[:, None] * 1.0
        seed = ch.pick("seed", [0, 1])
        np.random.seed(seed)
        a = MarkovChain(P, V).simulate(4, 25, i0=1)
        np.random.seed(seed)
        b = MarkovChain(P, V).simulate(4, 25, i0=1)
        ch.op(n=2)
        ch.close(a, b, "support:seed", 0, "two simulations with one seed")
        x = np.array(a)[:, :, 0].astype(int)
        for t in range(24):
            for k in range(4):
                ch.check(P[x[t, k], x[t + 1, k]] > 0, "support", f"jump from {x[t, k]} to {x[t + 1, k]}")
        ch.state(pos, short)

    def formats(ch):
        """iid processes: T x N x d arrays with the names of the variables"""
        laws = {
            "UNormal": lambda: UNormal(σ=0.1, μ=1.0), "Uniform": lambda: Uniform(0.0, 1.0), "Bernouilli": lambda: Bernouilli(π=0.4),
            "Normal2": lambda: Normal(Σ=S[2]), "Normal1": lambda: Normal(Σ=S[1]), "Constant": lambda: ConstantProcess(μ=[1.0, 2.0]),
            "Finite": lambda: FiniteDistribution(np.array([[0.0, 1.0], [2.0, 3.0]]), np.array([0.5, 0.5])),
            "Mixture": lambda: Mixture(index=Bernouilli(π=0.5), distributions={0: UNormal(σ=0.1), 1: ConstantProcess(μ=[3.0])}),
        }
        name = ch.pick("law", list(laws))
        T, N = ch.pick("T", [1, 4]), ch.pick("N", [1, 3])
        p = laws[name]()
        d = p.d
        if ch.flag("named"):
            names = ["ab", "b"][:d] if d > 1 else ["ab"]
            p.names = tuple(names)
        else:
            names = [f"_x_{i}" for i in range(d)]
        out = []
        for k in range(2):
            np.random.seed(2)
            x = p.simulate(N, T)
            ch.op()
            ch.same(x.dims, ("T", "N", "V"), "formats:dims")
            ch.same(x.shape, (T, N, d), "formats:shape")
            ch.same(list(x.coords["V"].data), names, "formats:names")
            ch.same(list(x.coords["T"].data), list(range(T)), "formats:T")
            ch.same(list(x.coords["N"].data), list(range(N)), "formats:N")
            out.append(x.data)
        ch.close(out[0], out[1], "formats:seed", 0, "two simulations with one seed")
        np.random.seed(2)
        y = p.draw(T * N)
        ch.close(out[0], y.reshape((T, N, d)), "formats:draws", 0, "simulated values are the draws")
        ch.state(name, T, N, names)

    def product(ch):
        """the product of processes is simulated component by component"""
        menu = {
            "VAR1": (lambda: VAR1(ρ=0.5, Σ=0 * S[2], μ=[1.0, 2.0]), [1.0, 2.0]),
            "AR1": (lambda: AR1(ρ=0.5, σ=0.0, μ=4.0), [4.0]),
            "Constant": (lambda: ConstantProcess(μ=[7.0]), [7.0]),
            "Finite": (lambda: FiniteDistribution(np.array([[3.0, 5.0]]), np.array([1.0])), [3.0, 5.0]),
            "MC": (lambda: MarkovChain([[1.0, 0.0], [0.0, 1.0]], [[6.0], [8.0]]), [6.0]),
        }
        names = [ch.pick(f"p{k}", list(menu)) for k in range(ch.pick("n", [1, 2, 3]))]
        T, N = ch.pick("T", [1, 3]), ch.pick("N", [1, 2])
        x = ProductProcess(*[menu[n][0]() for n in names]).simulate(N, T)
        ch.op()
        want = np.concatenate([menu[n][1] for n in names])
        ch.close(np.array(x), np.broadcast_to(want, (T, N, len(want))), "product", 1e-12, str(names))
        ch.state(names, T, N)

    exp.explore("paths", paths)
    exp.explore("responses", responses)
    exp.explore("jumps", jumps)
    def frequencies(ch):
        """jumps, while the random source goes through all its equally spaced outputs"""
        n = ch.pick("states", [2, 3])
        rows = {2: [(0.5, 0.5), (0.1, 0.9), (1.0, 0.0), (0.0, 1.0)], 3: [(0.2, 0.3, 0.5), (0.0, 0.5, 0.5), (0.7, 0.0, 0.3), (0.25, 0.75, 0.0)]}[n]
        P = np.array([ch.pick(f"row {i}", rows) for i in range(n)])
        V = np.array([[2.0 * i, i * i - 1.0] for i in range(n)])
        i0 = ch.pick("i0", range(n))
        N = 4096
        with kit.enumerated_random(12):
            x = np.array(MarkovChain(P, V).simulate(N, 2, i0=i0))
        ch.op()
        hit = (x[1][:, None, :] == V[None, :, :]).all(axis=2)
        f, w = hit.mean(axis=0), P[i0]
        ch.check((f[w == 0] == 0).all(), "frequencies:impossible", f"frequencies {f}, probabilities {w}")
        ch.check((np.abs(f - w) <= 5 * np.sqrt(w * (1 - w) / N) + 4 / N).all(), "frequencies:probabilities", f"frequencies {f}, probabilities {w}")
        ch.state(P.tolist(), i0)

    exp.explore("support", support)
    exp.explore("frequencies", frequencies)
    exp.explore("formats", formats)
    exp.explore("product", product)
