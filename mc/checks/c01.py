"""C01  calibration changes take full effect, whatever was read before.

All sequences (up to a depth) of `set_calibration` calls -- keyword or dict form,
numbers or expressions, on parameters, states, exogenous, symbols of the domain and
of the shock -- interleaved with reads of every derived quantity, on the real Model.
Reference: the derived quantities written out by hand from the final calibration
dictionary, resolved by a small recursive evaluator.
"""
import math

import numpy as np

from mc import kit
from mc.kit import dolo, model

TEXT = """
name: small
symbols:
    exogenous: [e]
    states: [z, k]
    controls: [i]
    parameters: [al, be, sg, wd, unset]
definitions: |
    y[t] = al*k[t] + z[t]
    c[t] = y[t] - i[t]
equations:
    arbitrage: |
        be*c[t+1] - c[t]*(1+al)   ⟂ -wd <= i[t] <= k[t]*al
    transition: |
        z[t] = be*z[t-1] + e[t]
        k[t] = (1-al)*k[t-1] + i[t-1]
calibration:
    al: 0.25
    be: al*2
    sg: 0.1
    wd: 3
    z: 0.5
    k: 2*be + wd
    i: al*k
domain:
    z: [-sg*wd, sg*wd]
    k: [k - wd, k + 2*wd]
exogenous: !UNormal
    sigma: sg
options:
    grid: !Cartesian
        n: [3, 4]
"""

BASE = dict(
    al="0.25", be="al*2", sg="0.1", wd="3", z="0.5", k="2*be+wd", i="al*k",
    y="al*k+z", c="y-i", e="0", unset="nan",
)
NAMES = ["e", "z", "k", "i", "al", "be", "sg", "wd", "unset", "y", "c"]


def resolve(d):
    out = {}

    def val(s):
        if s not in out:
            env = {"nan": math.nan}

            class L(dict):
                def __missing__(self, key):
                    return val(key)

            out[s] = float(eval(str(d[s]), {"__builtins__": {}}, L(env)))
        return out[s]

    for s in d:
        val(s)
    return out


SETS = [
    ("al:=0.4", dict(al=0.4)),
    ("be:=0.9", dict(be=0.9)),
    ("be:='al+0.1'", dict(be="al+0.1")),
    ("sg:=0.3", dict(sg=0.3)),
    ("wd:=2", dict(wd=2)),
    ("k:=5.5", dict(k=5.5)),
    ("k:='wd*al+1',z:=-0.25", dict(k="wd*al+1", z=-0.25)),
    ("e:=0.2", dict(e=0.2)),
    ("unset:=7.0", dict(unset=7.0)),
    ("c:=0.125", dict(c=0.125)),
]


def read_calibration(m):
    return [np.array([m.calibration[n] for n in NAMES])] + [
        np.array(m.calibration[g])
        for g in ("exogenous", "states", "controls", "parameters", "auxiliaries")
    ]


def read_domain(m):
    return [np.array(m.domain.min), np.array(m.domain.max)]


def read_exogenous(m):
    d = m.exogenous.discretize(to="iid", N=3, method="gauss-hermite")
    return [np.array(d.points), np.array(d.weights)]


def read_grid(m):
    return [np.array(m.endo_grid.nodes)]


def read_functions(m):
    c = m.calibration
    a = [c["exogenous"], c["states"], c["controls"]]
    p = c["parameters"]
    g = m.functions["transition"](a[0], a[1], a[2], a[0] + 1.0, p)
    f = m.functions["arbitrage"](a[0], a[1], a[2], a[0], a[1] + 1.0, a[2], p)
    y = m.functions["auxiliary"](a[0], a[1], a[2], p)
    return [np.array(g), np.array(f), np.array(y)]


def read_bounds(m):
    c = m.calibration
    lb, ub = m.x_bounds
    a = (c["exogenous"], c["states"], c["parameters"])
    return [np.array(lb(*a)), np.array(ub(*a))]


def read_residuals(m):
    r = m.residuals()
    return [np.array(r["transition"]), np.array(r["arbitrage"])]


def read_discretize(m):
    g, dp = m.discretize()
    return [np.array(g["endo"].nodes), np.array(dp.points)]


def read_formula(m):
    return [float(m.eval_formula("al*wd - be"))]


READS = [
    read_calibration, read_domain, read_exogenous, read_grid, read_functions,
    read_bounds, read_residuals, read_discretize, read_formula,
]


def expected(v):
    """the nine reads, from resolved values v"""
    al, be, sg, wd, z, k, i, e = (v[s] for s in "al be sg wd z k i e".split())
    y, c = v["y"], v["c"]
    yy = al * k + z
    cc = yy - i
    out = []
    out.append(
        [
            np.array([v[n] for n in NAMES]),
            np.array([e]), np.array([z, k]), np.array([i]),
            np.array([al, be, sg, wd, v["unset"]]), np.array([y, c]),
        ]
    )
    out.append([np.array([-sg * wd, k - wd]), np.array([sg * wd, k + 2 * wd])])
    pts = np.array([-math.sqrt(3), 0.0, math.sqrt(3)])[:, None] * sg
    out.append([pts, np.array([1 / 6, 2 / 3, 1 / 6])])
    zz = [-sg * wd, 0.0, sg * wd]
    kk = [k - wd + j * wd for j in range(4)]
    out.append([np.array([[a, b] for a in zz for b in kk])])
    y1 = al * (k + 1) + (z + 1)
    c1 = y1 - i
    out.append(
        [
            np.array([be * z + e + 1.0, (1 - al) * k + i]),
            np.array([be * c1 - cc * (1 + al)]),
            np.array([yy, cc]),
        ]
    )
    out.append([np.array([-wd]), np.array([k * al])])
    out.append(
        [
            np.array([be * z + e - z, (1 - al) * k + i - k]),
            np.array([be * cc - cc * (1 + al)]),
        ]
    )
    from scipy.stats import norm

    out.append([out[3][0], norm.ppf([0.1, 0.3, 0.5, 0.7, 0.9])[:, None] * sg])
    out.append([al * wd - be])
    return out


def compare(ch, m, d, sig):
    want = expected(resolve(d))
    for rd, w in zip(READS, want):
        got = rd(m)
        ch.op()
        ch.same(len(got), len(w), f"{sig}:{rd.__name__}", "number of values")
        for a, b in zip(got, w):
            ch.close(a, b, f"{sig}:{rd.__name__}", 1e-9, f"{rd.__name__} after {ch.trace}")
        ch.state(rd.__name__, [np.asarray(a, dtype=float) for a in got])


def run(exp):
    kit.use_fast()
    exp.assume(
        "calibration alphabet: %d assignments on one 2-state model" % len(SETS),
        "the generated functions are executed by numpy in the deep scenarios and by numba in scenario numba",
    )

    def histories(depth, sets, reads, firsts=("lazy", "read-all")):
        def scenario(ch):
            m = model(TEXT)
            d = dict(BASE)
            snaps = []
            first = ch.pick("first", firsts)
            if first == "read-all":
                compare(ch, m, d, "fresh")
            for step in range(depth):
                kind = ch.pick("op", ["set"] + (["stop"] if step else []))
                if kind == "stop":
                    break
                name, kw = ch.pick("set", sets)
                snap = m.calibration
                snaps.append((snap, {n: float(snap[n]) for n in NAMES}))
                if depth > 1 or ch.pick("form", ["kw", "dict"]) == "kw":
                    m.set_calibration(**kw)
                else:
                    arg = dict(kw)
                    m.set_calibration(arg)
                    ch.same(arg, dict(kw), "argument-mutated", "dict passed to set_calibration")
                ch.op()
                d.update({k_: str(v) for k_, v in kw.items()})
                last = step == depth - 1
                rd = ch.pick("read", ["none"] + (reads if not last or depth == 1 else []))
                if rd != "none":
                    want = expected(resolve(d))[READS.index(rd)]
                    for a, b in zip(rd(m), want):
                        ch.close(a, b, f"history:{rd.__name__}", 1e-9, f"{rd.__name__} after {ch.trace}")
                    ch.op()
            compare(ch, m, d, "history")
            for snap, vals in snaps:
                for n in NAMES:
                    ch.close(snap[n], vals[n], "snapshot", 0, f"calibration read earlier changed at {n}")
                for g in ("states", "controls", "parameters", "exogenous"):
                    arr = snap[g]
                    try:
                        arr[0] = 99.0
                        ok = False
                    except ValueError:
                        ok = True
                    ch.check(ok, "calibration-writable", f"calibration[{g!r}] can be overwritten in place")

        return scenario

    # both calling forms
    exp.explore("histories1", histories(1, SETS, READS))
    # every pair of assignments, every read in between
    exp.explore("histories2", histories(2, SETS, READS, ["lazy"]))
    deep = SETS[2:3] + SETS[4:7] if not exp.thorough else SETS
    exp.explore(
        "histories3",
        histories(3, deep, READS[:1] + READS[3:4] if not exp.thorough else READS[:5], ["read-all"]),
    )

    # two models built from the same file do not share state
    def two(ch):
        ms = [model(TEXT, name="a.yaml"), model(TEXT, name="a.yaml")]
        ds = [dict(BASE), dict(BASE)]
        for step in range(2):
            who = ch.pick("model", [0, 1])
            name, kw = ch.pick("set", SETS)
            if ch.flag("read-before"):
                read_functions(ms[1 - who])
                ch.op()
            ms[who].set_calibration(**kw)
            ch.op()
            ds[who].update({k_: str(v) for k_, v in kw.items()})
        for m, d in zip(ms, ds):
            compare(ch, m, d, "two-models")

    exp.explore("two-models", two)

    # several symbols at once: one call equals the same calls one by one, in any order
    def batches(ch):
        m = model(TEXT)
        d = dict(BASE)
        rest = [0, 1, 3, 5]
        for _ in range(len(rest)):
            j = ch.pick("next", list(rest))
            rest.remove(j)
            m.set_calibration(**SETS[j][1])
            ch.op()
            d.update({k_: str(v) for k_, v in SETS[j][1].items()})
        compare(ch, m, d, "batches")
        m2 = model(TEXT)
        both = {}
        for j in (0, 1, 3, 5):
            both.update(SETS[j][1])
        m2.set_calibration(**both)
        compare(ch, m2, d, "batches")

    exp.explore("batches", batches)

    # the same with the real compiler
    def numba(ch):
        with kit.real():
            m = M[0]
            d = D[0]
            name, kw = ch.pick("set", SETS)
            m.set_calibration(**kw)
            d.update({k_: str(v) for k_, v in kw.items()})
            ch.op()
            compare(ch, m, d, "numba")

    with kit.real():
        M, D = [model(TEXT)], [dict(BASE)]
        M[0].functions

    def fresh_numba(ch):
        # each execution starts from the base calibration again
        for kk, vv in BASE.items():
            pass
        base = {n: v for n, v in BASE.items()}
        with kit.real():
            M[0].set_calibration(**{n: (float(v) if _num(v) else v) for n, v in base.items()})
        D[0].clear()
        D[0].update(BASE)
        numba(ch)

    exp.explore("numba", fresh_numba)


def _num(v):
    try:
        float(v)
        return True
    except ValueError:
        return False
