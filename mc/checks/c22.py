"""C22  cached functions.

All sequences of calls up to a depth over a menu of arguments chosen to be easily confused
(equal hashes, same elements with other shapes or types, nested containers, what cannot be hashed
or pickled); the reference is the bare function.
"""
import glob
import importlib
import os
import shutil

import numpy as np

from mc import kit
from mc.kit import dolo

import dolo.misc.caching as caching


class Point:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Point({self.v})"


class Loose(Point):
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Loose)


def named(x):
    return x


# (name, argument maker); a fresh object at each call
ARGS = [
    ("1", lambda: 1),
    ("-1", lambda: -1),
    ("-2", lambda: -2),
    ("0.5", lambda: 0.5),
    ("nested -1", lambda: (-1, (0,))),
    ("nested -2", lambda: (-2, (0,))),
    ("'ab'", lambda: "ab"),
    ("b'ab'", lambda: b"ab"),
    ("None", lambda: None),
    ("()", lambda: ()),
    ("[]", lambda: []),
    ("{}", lambda: {}),
    ("(1,2)", lambda: (1, 2)),
    ("[1,2]", lambda: [1, 2]),
    ("{1,2}", lambda: {1, 2}),
    ("frozenset", lambda: frozenset([1, 2])),
    ("[[1],[2]]", lambda: [[1], [2]]),
    ("([1],2)", lambda: ([1], 2)),
    ("{'a':1}", lambda: {"a": 1}),
    ("{'a':[1]}", lambda: {"a": [1]}),
    ("{'a':-2}", lambda: {"a": -2}),
    ("{'a':-1}", lambda: {"a": -1}),
    ("items", lambda: (("a", 1),)),
    ("array 4", lambda: np.array([1.0, 2.0, 3.0, 4.0])),
    ("array 2x2", lambda: np.array([[1.0, 2.0], [3.0, 4.0]])),
    ("array 2x2 int", lambda: np.array([[1, 2], [3, 4]])),
    ("array 2x2 other", lambda: np.array([[1.0, 3.0], [2.0, 4.0]])),
    ("array transposed", lambda: np.array([[1.0, 2.0], [3.0, 4.0]]).T),
    ("array 0", lambda: np.zeros((0, 2))),
    ("array 0'", lambda: np.zeros((2, 0))),
    ("array [-1]", lambda: np.array([-1])),
    ("array [-2]", lambda: np.array([-2])),
    ("tuple of array", lambda: (1.0, 2.0, 3.0, 4.0)),
    ("list of arrays", lambda: [np.array([1.0]), np.array([2.0])]),
    ("object array", lambda: np.array([[1], "a"], dtype=object)),
    ("scalar", lambda: np.float64(0.5)),
    ("point", lambda: Point(3)),
    ("loose", lambda: Loose(4)),
    ("loose'", lambda: Loose(5)),
    ("function", lambda: named),
    ("lambda", lambda: lambda: 0),
]
PLAIN = {n for n, _ in ARGS[:36]}
SMALL = ["1", "-1", "-2", "[1,2]", "(1,2)", "array 4", "array 2x2", "{'a':1}", "([1],2)", "loose", "None"]


def show(o):
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), [show(e) for e in o.ravel().tolist()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [show(e) for e in o])
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, sorted(map(show, o), key=repr))
    if isinstance(o, dict):
        return ("dict", sorted(((k, show(v)) for k, v in o.items()), key=repr))
    if callable(o):
        return getattr(o, "__name__", "callable")
    return (type(o).__name__, repr(o))


class Scratch:
    """current directory in a scratch folder; removals are limited to it"""

    def __enter__(self):
        self.home = os.getcwd()
        self.dir = os.path.join(kit.tmp(), "cache")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.chdir(self.dir)
        self.system = os.system
        self.commands = []
        os.system = self._system
        return self

    def _system(self, cmd):
        """stand-in: removes the named files, in the scratch folder only"""
        self.commands.append(cmd)
        words = cmd.split()
        if words[:2] == ["rm", "-rf"]:
            for w in words[2:]:
                for f in glob.glob(w):
                    p = os.path.realpath(f)
                    if p.startswith(os.path.realpath(self.dir) + os.sep):
                        os.remove(p) if not os.path.isdir(p) else shutil.rmtree(p)
        return 0

    def __exit__(self, *a):
        os.system = self.system
        os.chdir(self.home)
        shutil.rmtree(self.dir, ignore_errors=True)


def run(exp):
    exp.assume("arguments of the menu of mc/checks/c22.py, fresh objects at each call; numbers that compare equal but differ in type are not mixed")
    MAKE = dict(ARGS)

    def wrap(kind, counter, base=0):
        def f(*a, **k):
            """some function"""
            counter.append(1)
            return [base, show(a), show(k)]

        return f, {"memory": caching.memoized, "disk": caching.cachedondisk}[kind](f)

    def once(ch, kind, calls, tag):
        """a sequence of calls gives what the bare function gives"""
        counter = []
        bare, cached = wrap(kind, counter)
        done = {}
        for c in calls:
            names, style = c
            vals = [MAKE[n]() for n in names]
            b = [show(v) for v in vals]
            kw = {}
            if style == "keywords":
                kw = {f"k{i}": v for i, v in enumerate(vals)}
                vals = []
            want = bare(*vals, **kw)
            n = len(counter)
            got = cached(*vals, **kw)
            ch.op()
            ch.same(got, want, f"{tag}:value", str(c))
            ch.same([show(v) for v in list(vals) + list(kw.values())], b, f"{tag}:argument")
            evaluated = len(counter) - n
            ch.check(evaluated <= 1, f"{tag}:twice", f"{evaluated} evaluations")
            if all(x in PLAIN for x in names) and (names, style) in done:
                ch.same(evaluated, 0, f"{tag}:cached", str(c))
            done[(names, style)] = 1
        ch.state(kind, calls)

    def pairs(ch):
        """all pairs of arguments"""
        kind = ch.pick("cache", ["memory", "disk"])
        style = ch.pick("style", ["positional", "keywords"])
        a = ch.pick("a", [n for n, _ in ARGS])
        b = ch.pick("b", [n for n, _ in ARGS])
        with Scratch():
            once(ch, kind, [((a,), style), ((b,), style), ((a,), style), ((a, b), style), ((b, a), style), ((a, b), style), ((b,), "positional")], "pairs")

    def sequences(ch):
        """all sequences of calls"""
        kind = ch.pick("cache", ["memory", "disk"])
        depth = exp.q(3, 4)
        calls = []
        for i in range(depth):
            n = ch.pick(f"call{i}", SMALL)
            calls.append(((n,), ch.pick(f"style{i}", ["positional", "keywords"]) if depth == 3 else "positional"))
        with Scratch():
            once(ch, kind, calls, "sequences")

    def results(ch):
        """what is returned"""
        kind = ch.pick("cache", ["memory", "disk"])
        values = {
            "none": None, "zero": 0, "false": False, "empty": [], "array": np.arange(4.0).reshape((2, 2)), "text": "é",
            "nested": {"a": [1, (2, None)]}, "lambda": (lambda: 1), "nan": float("nan"), "big": list(range(3000)),
        }
        name = ch.pick("result", list(values))
        v = values[name]
        n = []
        with Scratch() as sc:
            def g(x):
                n.append(x)
                return v

            f = {"memory": caching.memoized, "disk": caching.cachedondisk}[kind](g)
            for k in range(ch.pick("calls", [1, 2, 3])):
                r = f(1)
                ch.op()
                ch.same(show(r), show(v), "results:value")
                ch.check(type(r) is type(v), "results:type", f"{type(r)}")
            where = ch.pick("then", ["same", "renewed", "moved", "removed"])
            if kind == "disk":
                # another process with the same function; another current directory; no directory
                if where == "renewed":
                    f = caching.cachedondisk(g)
                elif where == "moved":
                    os.makedirs("elsewhere")
                    os.chdir("elsewhere")
                elif where == "removed":
                    shutil.rmtree(os.path.join(sc.dir, ".cache"))
                before = len(n)
                r = f(1)
                ch.same(show(r), show(v), "results:value", where)
                if where == "renewed" and name not in ("none", "lambda"):
                    ch.same(len(n), before, "results:kept")
        ch.state(kind, name)

    def errors(ch):
        """exceptions of the function are not cached"""
        kind = ch.pick("cache", ["memory", "disk"])
        E = ch.pick("error", [KeyError, TypeError, ValueError, IOError, EOFError, AttributeError])
        fail = [ch.flag(f"fail{i}") for i in range(4)]
        with Scratch():
            count = []

            def g(x):
                count.append(x)
                if fail[len(count) - 1]:
                    raise E("no")
                return x + 1

            f = {"memory": caching.memoized, "disk": caching.cachedondisk}[kind](g)
            ok = False
            for i in range(4):
                before = len(count)
                try:
                    r = f(3)
                    ch.same(r, 4, "errors:value")
                    ch.same(len(count), before + (not ok), "errors:evaluations")
                    ok = True
                except E:
                    ch.same(len(count), before + 1, "errors:evaluations")
                    ch.check(not ok and fail[before], "errors:raised", f"call {i}")
                ch.op()
        ch.state(kind, E.__name__, fail)

    def functions(ch):
        """several functions, methods, clearing"""
        kind = ch.pick("cache", ["memory", "disk"])
        with Scratch() as sc:
            mk = {"memory": caching.memoized, "disk": caching.cachedondisk}[kind]
            n = []

            def one():
                def f(x):
                    n.append("one")
                    return ("one", x)

                return f

            def two():
                def f(x):
                    n.append("two")
                    return ("two", x)

                return f

            class A:
                def __init__(self, k):
                    self.k = k

                def __reduce__(self):
                    return (int, (self.k,))

                def m(self, x):
                    n.append("m")
                    return ("m", self.k, x)

            A.m = mk(A.m)

            def g(x):
                n.append("g")
                return ("g", x)

            fs = {"one": (mk(one()), lambda x: ("one", x)), "two": (mk(two()), lambda x: ("two", x)), "g": (mk(g), lambda x: ("g", x))}
            a1, a2 = A(1), A(2)
            fs["m1"] = (a1.m, lambda x: ("m", 1, x))
            fs["m2"] = (a2.m, lambda x: ("m", 2, x))
            fresh = set()
            for i in range(exp.q(3, 4)):
                op = ch.pick(f"op{i}", list(fs) + ["clear", "clear g", "clear f"])
                if op == "clear":
                    caching.clear_cache()
                    fresh.clear()
                elif op.startswith("clear"):
                    caching.clear_cache(op.split()[1])
                    fresh -= {("g",)} if op == "clear g" else {("one",), ("two",)}
                else:
                    before = len(n)
                    ch.same(fs[op][0](5), fs[op][1](5), "functions:value", op)
                    if (op,) in fresh:
                        ch.same(len(n), before, "functions:cached", op)
                    elif kind == "disk":
                        ch.same(len(n), before + 1, "functions:cleared", op)
                    fresh.add((op,))
                ch.op(op)
                ch.state(kind, op, sorted(fresh))

    def dictionary(ch):
        """DiskDictionary against a dictionary"""
        KEYS = {"1": (1,), "-1": (-1,), "-2": (-2,), "pair": ("a", 2), "list": ["a", 2], "array": (np.array([1.0, 2.0]),), "flat": (1.0, 2.0), "deep": ([1, [2]], {"a": 1})}
        VALS = {"number": 1.5, "array": np.arange(6.0).reshape((2, 3)), "nested": {"k": [1, None]}, "text": "é"}
        # a list and a tuple with the same elements are the same key
        same = lambda k: "pair" if k == "list" else k
        with Scratch():
            d = caching.DiskDictionary(directory="store", funname="h")
            other = caching.DiskDictionary(directory="store", funname="k")
            ref = {}
            for i in range(exp.q(3, 4)):
                op = ch.pick(f"op{i}", ["set", "get", "reopen"])
                if op == "reopen":
                    d = caching.DiskDictionary(directory="store", funname="h")
                elif op == "set":
                    k = ch.pick(f"key{i}", list(KEYS))
                    v = ch.pick(f"value{i}", exp.q(["array", "nested"], list(VALS)[:3]))
                    d[KEYS[k]] = VALS[v]
                    ref[same(k)] = v
                    ch.check(other.get(KEYS[k]) is None, "dictionary:names", "shared with another name")
                for k in KEYS if op != "set" or i == exp.q(3, 4) - 1 else []:
                    got = d.get(KEYS[k])
                    want = VALS[ref[same(k)]] if same(k) in ref else None
                    ch.same(show(got), show(want), "dictionary:value", k)
                ch.op()
                ch.state(sorted(ref.items()))

    exp.explore("pairs", pairs)
    exp.explore("sequences", sequences)
    exp.explore("results", results)
    exp.explore("errors", errors)
    exp.explore("functions", functions)
    exp.explore("dictionary", dictionary)
