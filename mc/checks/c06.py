"""C06  formulas evaluated over a simulated table: `v(k)` and `v[t+k]` are the value k rows
later, names without a date are parameters, rows without the needed data are missing.
"""
import math

import numpy as np
import pandas as pd

from mc import kit
from mc.kit import dolo, model

TEXT = """
symbols:
    exogenous: [e]
    states: [z, k]
    controls: [i]
    parameters: [al, be]
definitions: |
    y[t] = al*k[t] + z[t]
equations:
    arbitrage: |
        be*y[t+1] - y[t] - i[t]
    transition: |
        z[t] = be*z[t-1] + e[t]
        k[t] = (1-al)*k[t-1] + i[t-1]
calibration:
    al: 0.25
    be: 0.5
    z: 0.5
    k: 2
    i: 1
"""
PARS = dict(al=0.25, be=0.5)
SHAPES = [
    ("{a} - {b}", lambda a, b, p: a - b),
    ("al*{a} + {b}/be", lambda a, b, p: p["al"] * a + b / p["be"]),
    ("{a}^2*{b} - 1", lambda a, b, p: a ** 2 * b - 1),
    ("log({a})*exp(-{b}) + al", lambda a, b, p: math.log(a) * math.exp(-b) + p["al"]),
    ("({a} - be*{b})^2", lambda a, b, p: (a - p["be"] * b) ** 2),
    ("{a}/({b} + 1)", lambda a, b, p: a / (b + 1)),
]


def table(T, columns, index):
    d = {c: [1.0 + 0.37 * ((3 * r + 2 * j) % 7) + 0.01 * r for r in range(T)] for j, c in enumerate(columns)}
    return pd.DataFrame(d, index=index), d


def run(exp):
    kit.use_fast()
    from dolo.compiler.eval_formula import eval_formula

    exp.assume("leads and lags from -3 to 3 over tables of up to 4 rows; two dated symbols per formula")
    M = model(TEXT)

    def tok(n, k, style):
        if style == "()":
            return f"{n}({k})"
        return f"{n}[t]" if k == 0 else f"{n}[t{k:+d}]"

    def formulas(ch):
        T = ch.pick("rows", [1, 2, 4])
        ks = [-3, -2, -1, 0, 1, 2, 3]
        ka, kb = ch.pick("a", ks), ch.pick("b", ks)
        sa = ch.pick("style", ["()"] if 0 else ["()", "[]"])
        a, b = ch.pick("vars", [("k", "z"), ("k", "k"), ("y", "extra")])
        sh = SHAPES[(ka + 3 + 2 * (kb + 3)) % len(SHAPES)] if not exp.thorough else ch.pick("shape", SHAPES)
        if sa == "[]" and (ka == 0 or kb == 0):
            sa = "()"  # `v[t]` has no date to read in this function
            ch.prune()
        expr = sh[0].format(a=tok(a, ka, sa), b=tok(b, kb, sa))
        idx = ch.pick("index", ["range", "years"])
        index = list(range(T)) if idx == "range" else [2000 + 5 * j for j in range(T)]
        df, d = table(T, ["z", "k", "i", "y", "extra"], index)
        keep = df.copy()
        want = []
        for r in range(T):
            if 0 <= r + ka < T and 0 <= r + kb < T:
                want.append(sh[1](d[a][r + ka], d[b][r + kb], PARS))
            else:
                want.append(math.nan)
        ch.trace.append(expr)
        for how in ("model", "dict", "calibration"):
            if how == "model":
                got = M.eval_formula(expr, df)
            elif how == "dict":
                got = eval_formula(expr, df, context=dict(PARS))
            else:
                got = eval_formula(expr, dataframe=df, context=M.calibration)
            ch.op()
            ch.close(np.asarray(got, dtype=float), want, f"{how}", 1e-12, expr)
            ch.same(list(got.index), index, f"{how}:index", "index of the result")
        ch.check(keep.equals(df), "table-changed", "the table was modified")
        ch.state(expr, np.nan_to_num(np.array(want), nan=-99.0))

    exp.explore("formulas", formulas)

    def params(ch):
        """no dated symbol: a number, with the calibration asked for"""
        al = ch.pick("al", [0.25, 0.5])
        be = ch.pick("be", [0.5, 2.0])
        f, w = ch.pick("formula", [
            ("al/be", lambda a, b: a / b), ("al^2 - be", lambda a, b: a * a - b),
            ("log(al) + exp(be)", lambda a, b: math.log(a) + math.exp(b)), ("(al - be)*3", lambda a, b: (a - b) * 3),
        ])
        m = model(TEXT)
        m.set_calibration(al=al, be=be)
        ch.op(n=2)
        ch.close(m.eval_formula(f), w(al, be), "params", 1e-12, f)
        other = dict(al=0.75, be=1.5)
        ch.close(m.eval_formula(f, calib=other), w(0.75, 1.5), "params:calib", 1e-12, f)
        ch.same(other, dict(al=0.75, be=1.5), "context-changed", "context")
        ch.state(f, w(al, be))

    exp.explore("params", params)

    def derived(ch):
        """a formula evaluated into a column can be used by the next formula"""
        T = 4
        k1, k2 = ch.pick("k1", [-1, 0, 1]), ch.pick("k2", [-1, 0, 1])
        df, d = table(T, ["z", "k", "i", "y"], list(range(T)))
        df["diff"] = M.eval_formula(f"y({k1}) - al*k(0)", df)
        got = M.eval_formula(f"diff({k2})*2 + diff(0)", df)
        one = [d["y"][r + k1] - 0.25 * d["k"][r] if 0 <= r + k1 < T else math.nan for r in range(T)]
        want = [(one[r + k2] * 2 + one[r]) if 0 <= r + k2 < T else math.nan for r in range(T)]
        ch.op(n=2)
        ch.close(np.asarray(got, dtype=float), want, "derived", 1e-12, "formula over a computed column")
        ch.state(k1, k2)

    exp.explore("derived", derived)
