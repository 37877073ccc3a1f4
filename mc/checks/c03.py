"""C03  compiled model functions compute what the equations say.

Every block of equations that a model can have, every pair of (symbol, date) tokens
admissible in that block (including definitions at the dates where they can be
evaluated), in every equation slot, for a menu of expression shapes.  The oracle never
parses the text: it evaluates the structured expression the text was generated from.
"""
import itertools
import math

import numpy as np

from mc import kit
from mc.kit import dolo, model

SYM = dict(
    exogenous=["e", "f"], states=["z", "k"], controls=["i", "n"], values=["v", "w"], rewards=["u", "q"],
    expectations=["mz", "mw"], poststates=["a", "b"], parameters=["al", "be", "ga"],
)
# block: (target group, [(group, date)...], dates at which definitions may appear)
BLOCKS = {
    "arbitrage": (None, [("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("parameters", None)], [0, 1]),
    "transition": ("states", [("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0), ("parameters", None)], [-1]),
    "value": ("values", [("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1), ("parameters", None)], [0, 1]),
    "felicity": ("rewards", [("exogenous", 0), ("states", 0), ("controls", 0), ("parameters", None)], [0]),
    "expectation": ("expectations", [("exogenous", 1), ("states", 1), ("controls", 1), ("parameters", None)], [1]),
    "direct_response": ("controls", [("exogenous", 0), ("states", 0), ("expectations", 0), ("parameters", None)], []),
    "half_transition": ("states", [("exogenous", -1), ("poststates", -1), ("exogenous", 0), ("parameters", None)], []),
    "direct_response_egm": ("controls", [("exogenous", 0), ("poststates", 0), ("expectations", 0), ("parameters", None)], []),
    "reverse_state": ("states", [("exogenous", 0), ("poststates", 0), ("controls", 0), ("parameters", None)], []),
}
BOUNDS = [("exogenous", 0), ("states", 0), ("parameters", None)]


def tok(n, t):
    if t is None:
        return n
    return n + {0: "[t]", 1: "[t+1]", -1: "[t-1]"}[t]


# definitions, as text and as functions of a lookup get(name, date)
DEFS = [
    ("y", "al*k[t] + z[t]*e[t]", lambda g, t: g("al", None) * g("k", t) + g("z", t) * g("e", t)),
    ("c", "y[t] - i[t]/ga", lambda g, t: g("y", t) - g("i", t) / g("ga", None)),
    ("h", "c[t]*n[t] + y[t]^2", lambda g, t: g("c", t) * g("n", t) + g("y", t) ** 2),
]
DFUN = {n: f for n, _, f in DEFS}

SHAPES = [
    ("{a}*{b} + 2*{c}", lambda a, b, c: a * b + 2 * c),
    ("{a} - {b} - {c}", lambda a, b, c: a - b - c),
    ("{a}/{b}/{c}", lambda a, b, c: a / b / c),
    ("{a} - ({b} - {c}*0.5)", lambda a, b, c: a - (b - c * 0.5)),
    ("{a}/({b}*{c}) + 1.25", lambda a, b, c: a / (b * c) + 1.25),
    ("({a} + {b})^(1/2) - {c}^3", lambda a, b, c: (a + b) ** 0.5 - c ** 3),
    ("exp(-{a}/{b})*log({c} + 1)", lambda a, b, c: math.exp(-a / b) * math.log(c + 1)),
    ("-{a}*{b} + sin({c}) - cos({a})", lambda a, b, c: -a * b + math.sin(c) - math.cos(a)),
    ("({a} - {b})*({c} - {a})/3", lambda a, b, c: (a - b) * (c - a) / 3),
    ("{a}**2*{b} - {c}", lambda a, b, c: a ** 2 * b - c),
]

TEXT = """
symbols:
{symbols}
definitions: |
{defs}
equations:
    arbitrage: |
{arb}
    transition: |
{tr}
{extra}
calibration:
    al: 0.3
    be: 0.9
    ga: 1.7
"""


def ind(lines, n=8):
    return "\n".join(" " * n + l for l in lines)


def build(block, eqs, bounds=None, more={}):
    """model text in which `block` has the two given right-hand sides"""
    if more:
        text = build(None, None).replace("{", "").replace("}", "")
        arb, tr, extra = [], [], ""
        for b, e in more.items():
            if b == "arbitrage":
                text = text.replace("        i[t] - al\n        n[t] - al\n", ind(e) + "\n")
            elif b == "transition":
                text = text.replace(
                    "        z[t] = z[t-1]\n        k[t] = k[t-1]\n",
                    ind([f"{s}[t] = {x}" for s, x in zip(SYM["states"], e)]) + "\n",
                )
            else:
                extra += f"    {b}: |\n" + ind([f"{s}[t] = {x}" for s, x in zip(SYM[BLOCKS[b][0]], e)]) + "\n"
        return text.replace("calibration:", extra + "calibration:")
    arb = ["i[t] - al", "n[t] - al"]
    tr = ["z[t] = z[t-1]", "k[t] = k[t-1]"]
    extra = ""
    if block == "arbitrage":
        arb = list(eqs)
    elif block == "transition":
        tr = [f"{s}[t] = {e}" for s, e in zip(SYM["states"], eqs)]
    elif block is not None:
        tg = SYM[BLOCKS[block][0]]
        extra = f"    {block}: |\n" + ind([f"{s}[t] = {e}" for s, e in zip(tg, eqs)])
    if bounds:
        arb = [
            a if b is None else f"{a}   {b[2]} {b[0]} <= {c}[t] <= {b[1]}"
            for a, b, c in zip(arb, bounds, SYM["controls"])
        ]
    return TEXT.format(
        symbols=ind([f"{g}: [{', '.join(l)}]" for g, l in SYM.items()], 4),
        defs=ind([f"{n}[t] = {e}" for n, e, _ in DEFS], 4),
        arb=ind(arb), tr=ind(tr), extra=extra,
    )


def tokens(args, dates):
    out = []
    for g, t in args:
        out += [(n, t) for n in SYM[g]]
    for t in dates:
        out += [(n, t) for n, _, _ in DEFS]
    return out


def point(args, r=0):
    """distinct positive values for every argument"""
    vals, vecs, k = {}, [], 0
    for g, t in args:
        v = []
        for n in SYM[g]:
            x = 0.61 + 0.173 * ((k * 7 + r * 5) % 23) + 0.011 * k + 0.003 * r
            if g == "parameters" and r == 0:
                x = 0.4 + 0.37 * SYM[g].index(n)
            vals[n, t] = x
            v.append(x)
            k += 1
        vecs.append(v)
    return vals, vecs


def getter(vals):
    def get(n, t):
        if (n, t) in vals:
            return vals[n, t]
        return DFUN[n](get, t)

    return get


def ev(shape, abc, get):
    try:
        r = shape[1](*[get(n, t) for n, t in abc])
        return float("nan") if isinstance(r, complex) else r
    except (ValueError, ZeroDivisionError, OverflowError):
        return float("nan")


def calls(ch, f, args, oracle, nout, sig, deep):
    """the compiled function on vectors, rows, mixed ranks, preallocated output"""
    pts = [point(args, r) for r in range(3)]
    want = np.array([oracle(getter(v)) for v, _ in pts])
    one = [np.array(v) for v in pts[0][1]]
    got = f(*one)
    ch.op()
    ch.close(got, want[0], f"{sig}:vector", 1e-10, "vector arguments")
    ch.state(sig, np.asarray(got))
    rows = [np.array([p[1][j] for p in pts]) for j in range(len(args))]
    got = f(*rows)
    ch.op()
    ch.close(got, want, f"{sig}:rows", 1e-10, "one row per point")
    if not deep:
        return
    # parameters shared by all rows
    w2 = np.array([oracle(getter({k: (pts[0][0][k] if k[1] is None else x) for k, x in v.items()})) for v, _ in pts])
    got = f(*(rows[:-1] + [one[-1]]))
    ch.close(got, w2, f"{sig}:shared-parameters", 1e-10, "one parameter vector for all rows")
    # a single leading argument vector against rows
    g0 = args[0]
    w3 = np.array([oracle(getter({k: (pts[0][0][k] if (k[1] == g0[1] and k[0] in SYM[g0[0]]) else x) for k, x in v.items()})) for v, _ in pts])
    got = f(*([one[0]] + rows[1:]))
    ch.close(got, w3, f"{sig}:shared-first", 1e-10, "one exogenous vector for all rows")
    out = np.full((3, nout), 77.0)
    got = f(*rows, out=out)
    ch.close(out, want, f"{sig}:out", 1e-10, "preallocated output")
    keep = [r.copy() for r in rows]
    f(*rows)
    for r, q in zip(rows, keep):
        ch.close(r, q, f"{sig}:mutates", 0, "arguments")
    three = [np.array([r, r[::-1]]) for r in rows]
    got = f(*three)
    ch.close(got, np.array([want, want[::-1]]), f"{sig}:3d", 1e-10, "two batches of rows")
    ch.op(n=5)
    # derivatives: all arguments but the parameters
    if np.isfinite(want).all():
        r1 = f(*one, diff=True)
        r2 = f(*rows, diff=True)
        ch.close(r1[0], want[0], f"{sig}:diff-value", 1e-10, "value returned with diff")
        ch.close(r2[0], want, f"{sig}:diff-value", 1e-10, "value returned with diff (rows)")
        ch.same((len(r1), len(r2)), (len(args), len(args)), f"{sig}:diff-count", "number of results")
        for j, (g, t) in enumerate(args[:-1]):
            D = np.zeros((3, nout, len(SYM[g])))
            for r in range(3):
                for kk, n in enumerate(SYM[g]):
                    h = 1e-6
                    up, dn = dict(pts[r][0]), dict(pts[r][0])
                    up[n, t] += h
                    dn[n, t] -= h
                    D[r, :, kk] = (np.array(oracle(getter(up))) - np.array(oracle(getter(dn)))) / (2 * h)
            if not np.isfinite(D).all():
                continue
            tol = 2e-5 * max(1.0, 0.01 * np.abs(want).max())
            ch.close(r1[1 + j], D[0], f"{sig}:diff", tol, f"derivative w.r.t. {g}({t})")
            ch.close(r2[1 + j], D, f"{sig}:diff-rows", tol, f"derivative w.r.t. {g}({t}), rows")
        ch.op(n=2)


def pairs(block, shapes, deep):
    target, args, dates = BLOCKS[block]
    toks = tokens(args, dates)
    if block == "value":
        # the left-hand side of the block is not one of its inputs
        toks = [t for t in toks if t not in [(n, 0) for n in SYM["values"]]]

    def run(ch):
        ia = ch.pick("a", list(range(len(toks))))
        ib = ch.pick("b", list(range(len(toks))))
        slot = ch.pick("slot", [0, 1])
        sh = shapes[(ia + ib) % len(shapes)] if len(shapes) != len(SHAPES) else ch.pick("shape", shapes)
        a, b, c = toks[ia], toks[ib], toks[(ia + 2 * ib + 1) % len(toks)]
        txt = sh[0].format(a=tok(*a), b=tok(*b), c=tok(*c))
        other = f"{tok(*b)} + 3*{tok(*a)}"
        eqs = [txt, other] if slot == 0 else [other, txt]
        ch.trace.append(txt)

        def oracle(get):
            x = ev(sh, (a, b, c), get)
            y = get(*b) + 3 * get(*a)
            return [x, y] if slot == 0 else [y, x]

        m = model(build(block, eqs))
        calls(ch, m.functions[block], args, oracle, 2, block, deep)

    return run


def compiled(nvar):
    """all the blocks in one model, through the numba compiler"""

    def run(ch):
        r = ch.pick("variant", list(range(nvar)))
        eqs, orc = {}, {}
        for j, block in enumerate(BLOCKS):
            target, args, dates = BLOCKS[block]
            toks = [t for t in tokens(args, dates) if block != "value" or t[0] not in SYM["values"] or t[1] != 0]
            n = len(toks)
            a, b, c = toks[(5 * r + j) % n], toks[(3 * r + 7 + j) % n], toks[(n - 1 - 2 * r) % n]
            sh = SHAPES[(r + j) % len(SHAPES)]
            eqs[block] = [sh[0].format(a=tok(*a), b=tok(*b), c=tok(*c)), f"{tok(*b)} + 3*{tok(*a)} - {tok(*c)}"]
            orc[block] = lambda g, sh=sh, a=a, b=b, c=c: [ev(sh, (a, b, c), g), g(*b) + 3 * g(*a) - g(*c)]
        with kit.real():
            m = model(build(None, None, None, eqs))
            for block in BLOCKS:
                calls(ch, m.functions[block], BLOCKS[block][1], orc[block], 2, block, True)
            calls(ch, m.functions["auxiliary"], BLOCKS["felicity"][1],
                  lambda g: [g(n, 0) for n, _, _ in DEFS], 3, "auxiliary", True)

    return run


def bounds(real=False, full=True):
    toks = tokens(BOUNDS, [])

    def run(ch):
        perp = ch.pick("sign", ["⟂", "|"] if full else ["⟂"])
        which = ch.pick("bounded", [(0,), (1,), (0, 1)] if full else [(0, 1)])
        ia = ch.pick("lb", list(range(len(toks))) if full else [0, 3])
        ib = ch.pick("ub", ["same"] if real else list(range(len(toks))))
        ib = ia if ib == "same" else ib
        a, b, c = toks[ia], toks[ib], toks[(ia + ib + 1) % len(toks)]
        lo = f"{tok(*a)} - 2*{tok(*c)}"
        hi = f"{tok(*b)}*{tok(*c)}"
        bb = [None, None]
        wl, wu = [lambda g: -math.inf] * 2, [lambda g: math.inf] * 2
        for j in which:
            if j == 0:
                bb[0] = (lo, hi, perp)
                wl[0] = lambda g: g(*a) - 2 * g(*c)
                wu[0] = lambda g: g(*b) * g(*c)
            else:
                bb[1] = ("-inf", hi, perp) if ia % 2 else (lo, "inf", perp)
                wl[1] = (lambda g: -math.inf) if ia % 2 else (lambda g: g(*a) - 2 * g(*c))
                wu[1] = (lambda g: g(*b) * g(*c)) if ia % 2 else (lambda g: math.inf)
        with (kit.real() if real else kit.fast()):
            m = model(build("arbitrage", ["i[t] - k[t]*al", "n[t]*be - c[t+1]"], bb))
            lb, ub = m.x_bounds
        for f, w, s in ((lb, wl, "lower"), (ub, wu, "upper")):
            orc = lambda get: [w[0](get), w[1](get)]
            pts = [point(BOUNDS, r) for r in range(3)]
            want = np.array([orc(getter(v)) for v, _ in pts])
            ch.close(f(*[np.array(x) for x in pts[0][1]]), want[0], f"bounds:{s}", 1e-10, f"{s} bounds")
            rows = [np.array([p[1][j] for p in pts]) for j in range(3)]
            ch.close(f(*rows), want, f"bounds:{s}", 1e-10, f"{s} bounds, rows")
            ch.op(n=2)
            ch.state(s, want)
        # the residual is not affected by the bounds
        args = BLOCKS["arbitrage"][1]
        v, vec = point(args)
        g = getter(v)
        ch.close(
            m.functions["arbitrage"](*[np.array(x) for x in vec]),
            [g("i", 0) - g("k", 0) * g("al", None), g("n", 0) * g("be", None) - g("c", 1)],
            "bounds:residual", 1e-10, "residual of an equation with bounds",
        )

    return run


def nobounds(ch):
    m = model(build("arbitrage", ["i[t] - 1", "n[t] - 1"]))
    ch.check(m.x_bounds is None, "bounds:none", "bounds reported for a model without any")
    # a complementarity condition attached to the wrong control is refused
    text = build("arbitrage", ["i[t] - 1", "n[t] - 1"])
    bad = ch.pick("wrong", [
        ("i[t] - 1 ⟂ 0 <= n[t] <= 1", "n[t] - 1"), ("i[t] - 1", "n[t] - 1 ⟂ 0 <= i[t] <= 1"),
        ("i[t] - 1 ⟂ 0 <= i[t+1] <= 1", "n[t] - 1"), ("i[t] - 1 ⟂ 0 <= k[t] <= 1", "n[t] - 1"),
    ])
    text = text.replace("i[t] - 1\n", bad[0] + "\n").replace("n[t] - 1\n", bad[1] + "\n")

    def go():
        m = model(text)
        m.equations
        return m.functions

    ch.op()
    ch.raises(go, "bounds:wrong-variable", f"complementarity {bad}")
    ch.state(bad)


def listed(ch):
    """the list style: `lhs = rhs` stands for rhs - lhs, with or without bounds"""
    args = BLOCKS["arbitrage"][1]
    toks = tokens(args, [0, 1])
    a = toks[ch.pick("a", list(range(len(toks))))]
    b = toks[ch.pick("b", list(range(len(toks))))]
    with_bounds = False
    lhs, rhs = f"{tok(*a)}*2 - {tok(*b)}", f"{tok(*b)} - {tok(*a)}/3"
    text = build("arbitrage", ["n[t]", "n[t]"])
    one = "        - " + lhs + " = " + rhs + "\n        - " + f"{tok(*b)}^2 - {tok(*a)}"
    text = text.replace("    arbitrage: |\n        n[t]\n        n[t]\n", "    arbitrage:\n" + one + "\n")
    m = model(text)
    f = m.functions["arbitrage"]

    def oracle(g):
        x, y = g(*a), g(*b)
        return [(y - x / 3) - (x * 2 - y), y ** 2 - x]

    calls(ch, f, args, oracle, 2, "listed", False)


def auxiliary(ch):
    """definitions as a function: every value in declaration order"""
    m = model(build(None, None))
    ch.same(list(m.symbols["auxiliaries"]), [n for n, _, _ in DEFS], "auxiliary:names", "auxiliaries")
    calls(ch, m.functions["auxiliary"], BLOCKS["felicity"][1],
          lambda g: [g(n, 0) for n, _, _ in DEFS], 3, "auxiliary", True)


def run(exp):
    kit.use_fast()
    exp.assume(
        "expression shapes: %d, over all pairs of admissible tokens of each block; definitions: a chain of three" % len(SHAPES),
        "the derivative is compared with central differences (tolerance 2e-5)",
        "scenarios compiled* go through the numba compiler, the others execute the same generated code with numpy",
    )
    few = SHAPES if exp.thorough else SHAPES[:-1]
    for block in BLOCKS:
        exp.explore(f"pairs:{block}", pairs(block, few, True))
    exp.explore("bounds", bounds())
    exp.explore("wrong-bounds", nobounds)
    exp.explore("listed", listed)
    exp.explore("auxiliary", auxiliary)
    nvar = exp.q(8, 64)
    exp.explore("compiled", compiled(nvar), fan=nvar)
    exp.explore("compiled-bounds", bounds(True, exp.thorough), fan=exp.q(1, 2))
