"""C02  the calibration of a model is the solution of its calibration and definition
expressions, in whatever order they are written, listed in declaration order.
"""
import itertools
import math

import numpy as np

from mc import kit
from mc.kit import dolo, model

HEAD = """
symbols:
    exogenous: {exo}
    states: {states}
    controls: {controls}
    parameters: {params}
{definitions}
equations:
    arbitrage: |
{arb}
    transition: |
{tr}
calibration:
{calib}
"""


def build(exo, states, controls, params, calib, definitions=""):
    arb = "\n".join(f"        {c}[t] - 1" for c in controls)
    tr = "\n".join(f"        {s}[t] = {s}[t-1]" for s in states)
    cal = "\n".join(f"    {k}: {v}" for k, v in calib)
    fmt = lambda l: "[" + ", ".join(l) + "]"
    return HEAD.format(
        exo=fmt(exo), states=fmt(states), controls=fmt(controls), params=fmt(params),
        definitions=definitions, arb=arb, tr=tr, calib=cal,
    )


def check_groups(ch, m, groups, vals, sig):
    """vectors in declaration order, scalars, tuples and aliases agree with vals"""
    c = m.calibration
    ch.op()
    for g, names in groups.items():
        want = np.array([vals[n] for n in names], dtype=float)
        got = c[g]
        ch.close(got, want, f"{sig}:group", 1e-12, f"calibration[{g!r}] ({names})")
        for i, n in enumerate(names):
            ch.close(c[n], vals[n], f"{sig}:scalar", 1e-12, f"calibration[{n!r}]")
    gs = list(groups)
    for a, b in itertools.permutations(gs, 2):
        x, y = c[a, b]
        ch.close(x, c[a], f"{sig}:tuple", 0, f"calibration[{a!r},{b!r}]")
        ch.close(y, c[b], f"{sig}:tuple", 0, f"calibration[{a!r},{b!r}]")
    if "controls" in groups:
        ch.close(c["actions"], c["controls"], f"{sig}:alias", 0, "calibration['actions']")
        n = groups["controls"][0]
        s, v = c["states", n]
        ch.close(v, vals[n], f"{sig}:tuple", 1e-12, "calibration['states', control]")
    ch.state([np.asarray(c[g]) for g in groups])


CONST = {"a": 1.5, "b": -0.75, "c": 2.25, "d": 0.5}


def expr(n, deps):
    s = repr(CONST[n])
    for k, j in enumerate(sorted(deps)):
        s += [f" + 2*{j}", f" - {j}^2", f" + {j}/4*exp({j}/10)"][k % 3]
    return f"({s})" if len(deps) > 1 else s


def solve(deps):
    """None when the dependencies are circular"""
    vals = {}

    def val(n, stack):
        if n in stack:
            raise RecursionError
        if n not in vals:
            v = CONST[n]
            for k, j in enumerate(sorted(deps[n])):
                x = val(j, stack + (n,))
                v += [2 * x, -(x * x), x / 4 * math.exp(x / 10)][k % 3]
            vals[n] = v
        return vals[n]

    try:
        for n in deps:
            val(n, ())
    except RecursionError:
        return None
    return vals


def graphs(names):
    pairs = [(x, y) for x in names for y in names if x != y]

    def run(ch):
        deps = {n: set() for n in names}
        for x, y in pairs:
            if ch.flag(f"{x}<-{y}"):
                deps[x].add(y)
        order = ch.pick("order", list(itertools.permutations(names)))
        place = ch.pick("groups", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
        groups = {"states": [], "controls": [], "parameters": []}
        for k, n in enumerate(names):
            groups[list(groups)[place[k % 3]]].append(n)
        text = build(["e"], groups["states"], groups["controls"], groups["parameters"],
                     [(n, expr(n, deps[n])) for n in order])
        want = solve(deps)
        m = model(text)
        ch.op()
        if want is None:
            ch.raises(lambda: m.calibration, "circular", "circular calibration")
            ch.state("circular", sorted((k, sorted(v)) for k, v in deps.items()))
            return
        want["e"] = 0.0
        groups["exogenous"] = ["e"]
        check_groups(ch, m, groups, want, "graph")

    return run


def dag4(ch):
    """chains, diamonds and stars over four symbols, in every order of the section"""
    shapes = {
        "chain": {"a": set(), "b": {"a"}, "c": {"b"}, "d": {"c"}},
        "diamond": {"a": set(), "b": {"a"}, "c": {"a"}, "d": {"b", "c"}},
        "star": {"a": {"b", "c", "d"}, "b": set(), "c": set(), "d": set()},
        "mixed": {"a": {"d"}, "b": {"a", "d"}, "c": {"a", "b"}, "d": set()},
    }
    deps = shapes[ch.pick("shape", list(shapes))]
    order = ch.pick("order", list(itertools.permutations("abcd")))
    groups = {"states": ["d", "a"], "controls": ["c"], "parameters": ["b"]}
    m = model(build(["e"], ["d", "a"], ["c"], ["b"], [(n, expr(n, deps[n])) for n in order]))
    want = solve(deps)
    want["e"] = 0.0
    check_groups(ch, m, dict(groups, exogenous=["e"]), want, "dag4")


def defaults(ch):
    """symbols left out of the calibration take the documented default"""
    given = {"e": 0.125, "u": 0.5, "k": 3.0, "z": -1.0, "i": 0.25, "n": 0.75, "al": 0.3, "be": 0.9}
    dflt = {"e": 0.0, "u": 0.0, "k": math.nan, "z": math.nan, "i": math.nan, "n": math.nan,
            "al": math.nan, "be": math.nan}
    keep = [n for n in given if ch.flag(n)]
    if not keep:
        keep = ["al"]
    m = model(build(["e", "u"], ["k", "z"], ["i", "n"], ["al", "be"], [(n, given[n]) for n in keep]))
    vals = {n: (given[n] if n in keep else dflt[n]) for n in given}
    check_groups(
        ch, m,
        dict(exogenous=["e", "u"], states=["k", "z"], controls=["i", "n"], parameters=["al", "be"]),
        vals, "defaults",
    )


def orders(ch):
    """declaration order rules the vectors, not the order of the calibration section"""
    names = ["p", "q", "r"]
    vals = dict(p=1.0, q=2.0, r=4.0, s=8.0, k=16.0, x=32.0, e=0.0)
    which = ch.pick("group", ["controls", "parameters", "states", "exogenous"])
    decl = list(ch.pick("declared", list(itertools.permutations(names))))
    sect = list(ch.pick("calibrated", list(itertools.permutations(names))))
    g = dict(exogenous=["e"], states=["s"], controls=["x"], parameters=["k"])
    g[which] = decl
    sect = sect + [n for w, l in g.items() if w != which for n in l]
    m = model(build(g["exogenous"], g["states"], g["controls"], g["parameters"],
                    [(n, vals[n]) for n in sect]))
    check_groups(ch, m, g, vals, "orders")
    ch.same([list(m.symbols[w]) for w in g], [g[w] for w in g], "orders:symbols", "declared symbols")


DEFS = [
    ("y", "al*k[t] + z[t]", lambda v: v["al"] * v["k"] + v["z"]),
    ("c", "y[t] - i[t]", lambda v: v["y"] - v["i"]),
    ("w", "c[t]*k[t-1] + y[t-1]", lambda v: v["c"] * v["k"] + v["y"]),
    ("h", "c[t+1] + e[t]^2 - 3", lambda v: v["c"] + v["e"] ** 2 - 3),
]


def definitions(ch):
    """definitions enter the calibration at their steady-state value, unless overridden"""
    style = ch.pick("style", ["block", "mapping"])
    orders = [o for o in itertools.permutations(range(4))
              if o.index(0) < o.index(1) and o.index(1) < o.index(2) and o.index(1) < o.index(3)]
    o = ch.pick("order", orders)
    over = [n for n, _, _ in DEFS if ch.flag(f"override {n}")]
    base = dict(al=0.25, z=0.5, k=4.0, i=0.125, e=0.3)
    if style == "block":
        d = "definitions: |\n" + "\n".join(f"    {DEFS[j][0]}[t] = {DEFS[j][1]}" for j in o)
    else:
        d = "definitions:\n" + "\n".join(f"    {DEFS[j][0]}[t]: {DEFS[j][1]}" for j in o)
    calib = [(n, 7.0 + k) for k, n in enumerate(over)] + list(base.items())
    m = model(build(["e"], ["k", "z"], ["i"], ["al"], calib, d))
    vals = dict(base)
    for n, _, f in DEFS:
        vals[n] = 7.0 + over.index(n) if n in over else f(vals)
    check_groups(
        ch, m,
        dict(exogenous=["e"], states=["k", "z"], controls=["i"], parameters=["al"],
             auxiliaries=[DEFS[j][0] for j in o]),
        vals, "definitions",
    )


def forms(ch):
    """ways of writing a number, an expression or a key"""
    key = ch.pick("key", ["k", "k[t]", "k(0)"])
    txt, val = ch.pick("value", [
        ("2", 2.0), ("-2", -2.0), ("2.5", 2.5), ("1e-3", 1e-3), ("-1.5e2", -150.0), ("2^3", 8.0),
        ("2**3", 8.0), ("exp(0)", 1.0), ("log(2)", math.log(2)), ("-al", -0.25), ("1/al", 4.0),
        ("al*(be - 1)", 0.25 * 0.5), ("(al+be)^(1/2)", math.sqrt(1.75)), ("2-1-1", 0.0),
        ("be/al/2", 3.0), ("-al^2", -0.0625), ("al - be*2 + 1", -1.75), ("exp(-al*2)", math.exp(-0.5)),
        ("2^be^1", 2 ** 1.5), ("(2)", 2.0),
    ])
    m = model(build(["e"], ["k"], ["i"], ["al", "be"], [("al", 0.25), (key, txt), ("be", 1.5), ("i", "k*2")]))
    check_groups(ch, m, dict(exogenous=["e"], states=["k"], controls=["i"], parameters=["al", "be"]),
                 dict(al=0.25, be=1.5, k=val, i=2 * val, e=0.0), "forms")


def greek(ch):
    """greek and ascii names are distinct symbols and keep their own values"""
    names = ch.pick("names", list(itertools.permutations(["α", "β", "alpha", "δ"], 3)))
    vals = {n: 0.5 + k for k, n in enumerate(names)}
    m = model(build(["e"], ["k"], ["i"], list(names), list(vals.items()) + [("k", f"{names[0]} + {names[2]}"), ("i", 1)]))
    v = dict(vals, k=vals[names[0]] + vals[names[2]], i=1.0, e=0.0)
    check_groups(ch, m, dict(exogenous=["e"], states=["k"], controls=["i"], parameters=list(names)), v, "greek")


def run(exp):
    kit.use_fast()
    exp.assume(
        "symbols: all dependency graphs over three symbols, four shapes over four; every order of the section",
        "functions in calibration expressions: exp, log and arithmetic",
    )
    exp.explore("graphs", graphs(["a", "b", "c"]))
    exp.explore("dag4", dag4)
    exp.explore("defaults", defaults)
    exp.explore("orders", orders)
    exp.explore("definitions", definitions)
    exp.explore("forms", forms)
    exp.explore("greek", greek)
    if exp.thorough:
        exp.explore("graphs4", graphs(["a", "b", "c", "d"]))
