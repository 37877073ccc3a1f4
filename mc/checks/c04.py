"""C04  models which break the rules of the language are refused when they are imported,
models which follow them are accepted.

Programs are generated from a grammar of models, one feature at a time (quick) or two
(thorough); whether a program is admissible is decided by the generator, from the rules
of the documentation, never by parsing the text.
"""
import itertools

from mc import kit
from mc.kit import model

SYM = dict(
    exogenous=["e", "f"], states=["z", "k"], controls=["i", "n"], values=["v", "w"], rewards=["u", "q"],
    expectations=["mz", "mw"], poststates=["a", "b"], parameters=["al", "be"],
)
GROUP = {s: g for g, l in SYM.items() for s in l}
# block: (defined group, (group, date) which may appear, dates of definitions, are the variables
# which the block has already defined available)
T0 = [("exogenous", 0), ("states", 0), ("controls", 0)]
T1 = [("exogenous", 1), ("states", 1), ("controls", 1)]
BLOCKS = {
    "arbitrage": (None, T0 + T1, [0, 1], None),
    "transition": ("states", [("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0)], [-1], None),
    "value": ("values", T0 + T1 + [("values", 0), ("values", 1)], [0, 1], None),
    "felicity": ("rewards", T0, [0], True),
    "expectation": ("expectations", T1, [1], None),
    "direct_response": ("controls", [("exogenous", 0), ("states", 0), ("expectations", 0)], [], True),
    "half_transition": ("states", [("exogenous", -1), ("poststates", -1), ("exogenous", 0)], [], None),
    "direct_response_egm": ("controls", [("exogenous", 0), ("poststates", 0), ("expectations", 0)], [], True),
    "reverse_state": ("states", [("exogenous", 0), ("poststates", 0), ("controls", 0)], [], True),
}
BOUNDS = [("exogenous", 0), ("states", 0)]
DEFS = [("y", "al*k[t] + z[t]*e[t]"), ("c", "y[t] - i[t]/be")]
DATES = [-2, -1, 0, 1, 2]


def tok(n, t):
    if t is None:
        return n
    return f"{n}[t]" if t == 0 else f"{n}[t{t:+}]"


def lst(l):
    return "[" + ", ".join(l) + "]"


class Program:
    """the parts of a model file; everything is admissible until it is changed"""

    def __init__(self, style="block"):
        self.style = style
        self.symbols = [(g, list(l)) for g, l in SYM.items()]
        self.definitions = [(n + "[t]", e) for n, e in DEFS]
        self.defstyle = "block"
        self.equations = {
            "arbitrage": ["i[t] - al*z[t+1]", "n[t] - al"],
            "transition": ["z[t] = z[t-1]*al + e[t]", "k[t] = k[t-1] + i[t-1]"],
        }
        self.calibration = [("al", "0.3"), ("be", "0.9"), ("z", "1.5"), ("k", "2"), ("i", "0.5"), ("n", "0.25")]
        self.exogenous = None
        self.domain = None

    def text(self):
        o = ["symbols:"] + [f"  {g}: {lst(l)}" for g, l in self.symbols]
        if self.definitions:
            if self.defstyle == "block":
                o += ["definitions: |"] + [f"  {n} = {e}" for n, e in self.definitions]
            else:
                o += ["definitions:"] + [f"  {n}: {e}" for n, e in self.definitions]
        o += ["equations:"]
        for b, l in self.equations.items():
            if self.style == "block":
                o += [f"  {b}: |"] + [f"    {e}" for e in l]
            else:
                o += [f"  {b}:"] + [f"    - {e}" for e in l]
        o += ["calibration:"] + [f"  {n}: {e}" for n, e in self.calibration]
        if self.domain is not None:
            o += ["domain:"] + [f"  {s}: {r}" for s, r in self.domain]
        if self.exogenous is not None:
            o += ["exogenous:"] + [f"  {k}: {v}" for k, v in self.exogenous]
        return "\n".join(o) + "\n"


def decide(ch, prog, good, sig):
    """imports the program; `good` is what the rules say"""
    text = prog if isinstance(prog, str) else prog.text()
    ch.op()
    try:
        m = model(text, check=True)
        err = None
    except Exception as e:
        m, err = None, f"{type(e).__name__}: {e}"
    ch.state(sig, good, text)
    if good:
        ch.check(err is None, f"{sig}:refused", f"an admissible model is refused ({err}):\n{text}")
    else:
        ch.check(err is not None, f"{sig}:accepted", f"a model which breaks the rules is imported:\n{text}")
    return m


SHAPES = ["{0}", "al*exp({0}) - be", "1 - be/(1 + {0})^2"]


def put(p, block, slot, expr):
    """`expr` as (the right-hand side of) equation `slot` of a block"""
    tg = BLOCKS[block][0]
    if tg is None:
        p.equations[block] = ["i[t] - al", "n[t] - al"]
        p.equations[block][slot] = expr
    else:
        eqs = [f"{s}[t] = al + {j}.5" for j, s in enumerate(SYM[tg])]
        eqs[slot] = f"{SYM[tg][slot]}[t] = {expr}"
        p.equations[block] = eqs


def admissible(block, slot, n, t):
    """True, False or None (the rules do not say)"""
    tg, args, dates, rec = BLOCKS[block]
    if n in SYM["parameters"]:
        return t is None
    if t is None:
        return None if n in GROUP or n in ("y", "c") else False
    if n in ("y", "c"):
        return t in dates
    if n not in GROUP:
        return False
    if (GROUP[n], t) in args:
        return True
    if GROUP[n] == tg and t == 0:
        j = SYM[tg].index(n)
        return False if j >= slot else rec
    return False


def tokens(dates=DATES):
    names = [s for l in SYM.values() for s in l] + ["y", "c", "nowhere"]
    return [(n, t) for n in names for t in [None] + dates]


def symbols_in_blocks(pairs):
    def scenario(ch):
        block = ch.pick("block", list(BLOCKS))
        style = ch.pick("style", ["block", "list"] if not pairs else ["block"])
        slot = ch.pick("equation", [0, 1])
        menu = tokens() if not pairs else tokens([-1, 0, 1])
        n, t = ch.pick("symbol", menu)
        ok = admissible(block, slot, n, t)
        shape = ch.pick("shape", SHAPES if not pairs else SHAPES[1:2])
        expr = shape.format(tok(n, t))
        if pairs:
            slot2 = ch.pick("other-equation", [0, 1])
            if slot2 < slot:
                ch.prune()
            n2, t2 = ch.pick("other-symbol", menu)
            if slot2 == slot and (n2, str(t2)) <= (n, str(t)):
                ch.prune()
            ok2 = admissible(block, slot2, n2, t2)
            if None in (ok, ok2) and False not in (ok, ok2):
                ch.prune()
            ok = False if False in (ok, ok2) else True
        elif ok is None:
            ch.prune()
        p = Program(style)
        put(p, block, slot, expr)
        if pairs:
            if slot2 == slot:
                put(p, block, slot, expr + " + " + tok(n2, t2))
            else:
                q = p.equations[block][slot]
                put(p, block, slot2, tok(n2, t2))
                p.equations[block][slot] = q
        decide(ch, p, ok, f"symbol:{block}")

    return scenario


def bounds(ch):
    """a symbol in a complementarity bound"""
    style = ch.pick("style", ["block", "list"])
    slot = ch.pick("equation", [0, 1])
    side = ch.pick("side", ["lower", "upper"])
    n, t = ch.pick("symbol", tokens())
    if n in SYM["parameters"]:
        ok = t is None
    elif t is None:
        ok = None if n != "nowhere" else False
    else:
        ok = (GROUP.get(n), t) in BOUNDS
    if ok is None:
        ch.prune()
    shape = ch.pick("shape", SHAPES[:2])
    p = Program(style)
    e = shape.format(tok(n, t))
    lo, hi = (e, "inf") if side == "lower" else ("-inf", e)
    p.equations["arbitrage"][slot] += f" ⟂ {lo} <= {tok(SYM['controls'][slot], 0)} <= {hi}"
    decide(ch, p, ok, "bound")


def left_hand_sides(ch):
    """sequences of variables defined by a block"""
    block = ch.pick("block", [b for b in BLOCKS if BLOCKS[b][0]])
    style = ch.pick("style", ["block", "list"])
    tg = BLOCKS[block][0]
    other = "controls" if tg != "controls" else "states"
    menu = [(s, 0) for s in SYM[tg]] + [(SYM[tg][0], 1), (SYM[tg][1], -1), (SYM[other][0], 0), ("y", 0), ("al", None), ("nowhere", 0)]
    n = ch.pick("equations", [1, 2, 3])
    if n == 3 and not ch.exp.thorough:
        menu = menu[:4]
    lhs = [ch.pick(f"defines{j}", menu) for j in range(n)]
    p = Program(style)
    p.equations[block] = [f"{tok(*v)} = al + {j}.5" for j, v in enumerate(lhs)]
    decide(ch, p, lhs == [(s, 0) for s in SYM[tg]], f"defines:{block}")


def arbitrage(ch):
    """number of arbitrage equations and variables of their complementarity conditions"""
    style = ch.pick("style", ["block", "list"])
    sign = ch.pick("sign", ["⟂", "|"] if style == "block" else ["⟂"])
    n = ch.pick("equations", [1, 2, 3])
    menu = [None, ("i", 0), ("n", 0), ("i", 1), ("n", -1), ("z", 0), ("al", None), ("nowhere", 0)]
    if n == 3 and not ch.exp.thorough:
        menu = menu[:3]
    p = Program(style)
    eqs, ok = [], n == 2
    for j in range(n):
        v = ch.pick(f"complementarity{j}", menu)
        e = f"al - {j}.5*z[t+1]"
        if v is not None:
            e += f" {sign} 0 <= {tok(*v)} <= 1"
            ok = ok and v == (["i", "n"][j], 0)
        eqs.append(e)
    p.equations["arbitrage"] = eqs
    decide(ch, p, ok, "arbitrage")


def declarations(ch):
    """symbols declared twice, in the same group or in two groups"""
    p = Program()
    g = ch.pick("group", list(SYM))
    at = ch.pick("position", [0, 1, 2])
    s = ch.pick("symbol", [s for l in SYM.values() for s in l] + ["y", "fresh"])
    if s == "fresh" and g in ("states", "controls"):
        ch.prune()  # needs an equation
    p.symbols = [(h, l[:at] + [s] + l[at:] if h == g else l) for h, l in p.symbols]
    p.calibration.append(("fresh", "1"))
    decide(ch, p, s == "fresh", "declared")


def definitions(ch):
    """what is defined, in terms of what, in which order"""
    style = ch.pick("style", ["block", "mapping"])
    names = [s for l in SYM.values() for s in l]
    n = ch.pick("definitions", [1, 2, 3])
    p = Program()
    p.defstyle = style
    if n == 1:
        what = ch.pick("defines", [(s, 0) for s in names] + [("h", 0), ("h", 1), ("h", -1)])
        uses = ch.pick("uses", [(s, t) for s in names + ["h", "nowhere"] for t in (None, -1, 0, 1)])
        s, t = uses
        if style == "mapping" and what[1] != 0:
            ch.prune()
        if s in SYM["parameters"]:
            ok = t is None
        elif s in names and t is None:
            ch.prune()
        elif s in ("h", "nowhere"):
            ok = False
        elif GROUP[s] in ("exogenous", "states", "controls"):
            ok = t == 0
        else:
            # other groups do not appear in arbitrage and transition
            ok = False
        ok = ok and what == ("h", 0)
        p.definitions = [(tok(*what), "al + 2*" + tok(*uses))]
        decide(ch, p, ok, "definition")
        return
    menu = ["y", "c", "h"]
    order = [ch.pick(f"defines{j}", menu) for j in range(n)]
    deps = [ch.pick(f"uses{j}", [None] + menu) for j in range(n)]
    ok, seen = True, []
    for a, b in zip(order, deps):
        if b is not None and b not in seen:
            ok = False
        if a in seen:
            ok = False
        seen.append(a)
    if style == "mapping" and not ok:
        # the order of a mapping has no meaning
        if len(set(order)) < n:
            ch.prune()
        d = dict(zip(order, deps))
        ok = all(x is None or x in d for x in deps)
        for a in order:
            b, k = d[a], 0
            while b is not None and b in d and k < 5:
                b, k = d[b], k + 1
            ok = ok and k < 5
    p.definitions = [(a + "[t]", f"al*z[t] + {b}[t]" if b else "al*z[t]") for a, b in zip(order, deps)]
    decide(ch, p, ok, "definitions")


PROCESS = {
    1: ["!UNormal {σ: 0.1}", "!AR1 {ρ: 0.5, σ: 0.1}", "!ConstantProcess {μ: [0.5]}",
        "!MarkovChain {transitions: [[0.9, 0.1], [0.2, 0.8]], values: [[1.0], [2.0]]}"],
    2: ["!Normal {Σ: [[0.1, 0.0], [0.0, 0.2]]}", "!VAR1 {ρ: 0.5, Σ: [[0.1, 0.0], [0.0, 0.2]]}",
        "!MarkovChain {transitions: [[0.9, 0.1], [0.2, 0.8]], values: [[1.0, 0.5], [2.0, 0.25]]}"],
    3: ["!Normal {Σ: [[0.1, 0.0, 0.0], [0.0, 0.2, 0.0], [0.0, 0.0, 0.3]]}"],
}


def shocks(ch):
    """partitions of the shocks, their order, the dimensions of their processes"""
    shocks = ["e", "f", "g"]
    menu = shocks + ["nowhere", "z"] if ch.exp.thorough else shocks + ["nowhere"]
    n = ch.pick("shocks", [1, 2, 3, 4])
    seq = [ch.pick(f"shock{j}", menu) for j in range(n)]
    cuts = [j for j in range(1, n) if ch.flag(f"cut{j}")]
    parts = [seq[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    keys = [ch.pick("comma", [",", ", "]).join(q) for q in parts] if n == 3 and seq == shocks else [",".join(q) for q in parts]
    if len(set(keys)) < len(keys):
        ch.prune()
    good = seq == shocks
    procs, ok = [], good
    for j, q in enumerate(parts):
        d = ch.pick(f"dimension{j}", [1, 2, 3]) if good else min(len(q), 3)
        ok = ok and d == len(q)
        procs.append(ch.pick(f"process{j}", PROCESS[d] if good else PROCESS[d][:1]))
    p = Program()
    p.symbols = [(g, shocks if g == "exogenous" else l) for g, l in p.symbols]
    p.exogenous = list(zip(keys, procs))
    m = decide(ch, p, ok, "shocks")
    if ok:
        ch.check(m.exogenous.d == 3, "shocks:dimension", "dimension of the exogenous process")


def domains(ch):
    """states with and without bounds"""
    p = Program()
    st = ["z", "k", "l"]
    p.symbols = [(g, st if g == "states" else l) for g, l in p.symbols]
    p.equations["transition"].append("l[t] = l[t-1]")
    p.calibration.append(("l", "1"))
    sub = [s for s in st if ch.flag(f"bounds:{s}")]
    sub = list(ch.pick("order", list(itertools.permutations(sub))))
    p.domain = [(s, ch.pick(f"range:{s}", ["[0, 3]", "[al*z, 2*z + be]"])) for s in sub] if sub else None
    decide(ch, p, len(sub) in (0, 3), "domain")


def calibrations(ch):
    """what the values of three symbols are written with"""
    menu = ["al", "be", "z", "nowhere"]
    names = ["al", "be", "z"]
    deps = {n: ch.pick(f"uses:{n}", [None] + menu) for n in names}
    p = Program()
    p.calibration = [(n, f"0.5 + {d}/2" if d else "0.5") for n, d in deps.items()] + p.calibration[3:]
    ok = True
    for n in names:
        d, k = deps[n], 0
        while d in deps and k < 5:
            d, k = deps[d], k + 1
        ok = ok and k < 5 and d != "nowhere"
    decide(ch, p, ok, "calibration")


def unknown_blocks(ch):
    """equations of a block which does not exist, or of a group which is not declared"""
    p = Program()
    b = ch.pick("block", list(BLOCKS) + ["nothing"])
    tg = BLOCKS[b][0] if b in BLOCKS else None
    if tg is None and b != "nothing":
        ch.prune()
    if b == "nothing":
        p.equations[b] = ["z[t] - k[t]"]
        return decide(ch, p, False, "block")
    gone = ch.pick("without", [None] + [g for g in SYM if g not in ("exogenous", "states", "controls", "parameters")])
    p.equations[b] = [f"{s}[t] = al" for s in SYM[tg]]
    p.symbols = [(g, l) for g, l in p.symbols if g != gone]
    need = {tg} | {g for g, _ in BLOCKS[b][1]}
    decide(ch, p, gone not in need, "block")


def compiled(count):
    """one program in `count` of each of the preceding families goes through the numba compiler"""
    menu = []
    for block in BLOCKS:
        for slot in (0, 1):
            for n, t in tokens():
                ok = admissible(block, slot, n, t)
                if ok is not None:
                    menu.append((f"{block}:{slot}:{tok(n, t)}", block, slot, n, t, ok))

    def scenario(ch):
        k = ch.pick("program", range(0, len(menu), count))
        _, block, slot, n, t, ok = menu[k]
        p = Program()
        put(p, block, slot, SHAPES[1].format(tok(n, t)))
        with kit.real():
            decide(ch, p, ok, f"compiled:{block}")

    return scenario


def run(exp):
    kit.use_fast(strict=True)
    exp.assume(
        "rules: those of the documentation (declarations, dates admitted by each block, order of definitions and of assignments, "
        "complementarity conditions, shocks, domain); where it is silent (undated variables, variables of the same block "
        "in blocks which are not recursive) nothing is claimed",
        "scenarios but compiled execute the generated code with numpy, refusing the names that the compiler would refuse",
    )
    exp.explore("symbols", symbols_in_blocks(False))
    exp.explore("bounds", bounds)
    exp.explore("left-hand-sides", left_hand_sides)
    exp.explore("arbitrage", arbitrage)
    exp.explore("declarations", declarations)
    exp.explore("definitions", definitions)
    exp.explore("shocks", shocks)
    exp.explore("domains", domains)
    exp.explore("calibrations", calibrations)
    exp.explore("blocks", unknown_blocks)
    exp.explore("compiled", compiled(exp.q(23, 3)))
    if exp.thorough:
        exp.explore("two-symbols", symbols_in_blocks(True))
