"""C24  multiple dispatch.

All sets of signatures (up to three, four in thorough) over a small class hierarchy, registered in
all orders and in several ways, with calls of all argument types before and after each
registration or removal; the reference picks the applicable signature whose classes come first in
the method resolution orders of the arguments, leftmost argument first.
"""
import itertools
import typing

from mc import kit
from mc.kit import dolo

from dolo.misc.multimethod import DispatchError, multimethod, overload, isa, multimeta, signature, subtype


class A:
    pass


class B(A):
    pass


class C(A):
    pass


class D(B, C):
    pass


class E(D):
    pass


class Z:
    pass


CLASSES = [object, A, B, C, D]
VALUES = [A(), B(), C(), D(), E(), Z(), 1]


def best(sigs, types):
    """name of the method, or None when there is none"""
    ok = [s for s in sigs if len(s) <= len(types) and all(issubclass(t, c) for t, c in zip(types, s))]
    if not ok:
        return None
    # remove those that others refine
    low = [s for s in ok if not any(o != s and len(s) <= len(o) and all(issubclass(x, y) for x, y in zip(o, s)) for o in ok)]
    dist = {s: tuple(t.mro().index(c) for t, c in zip(types, s)) for s in low}
    m = min(dist.values())
    win = [s for s in low if dist[s] == m]
    return win[0] if len(win) == 1 else None


def method(sig):
    def f(*args, **kwargs):
        """a method"""
        return (sig, args, kwargs)

    f.__name__ = "f"
    return f


def annotated(sig):
    names = ["x", "y", "z"][: len(sig)]
    ns = {f"T{i}": c for i, c in enumerate(sig)}
    exec(f"def f({', '.join(f'{n}: T{i}' for i, n in enumerate(names))}, *more, **kw) -> int:\n    return (SIG, ({', '.join(names)}{',' if names else ''}) + more, kw)", {**ns, "SIG": sig}, ns)
    return ns["f"]


def run(exp):
    exp.assume("classes of the hierarchy of mc/checks/c24.py; one or two dispatched arguments")

    def ask(ch, tag, mm, sigs, arity, kwargs={}):
        for vals in itertools.product(VALUES, repeat=arity):
            want = best(sigs, tuple(map(type, vals)))
            ch.op()
            try:
                got = mm(*vals, **kwargs)
            except DispatchError:
                ch.check(want is None, tag + ":error", f"no method for {[type(v).__name__ for v in vals]} among {sigs}")
                continue
            ch.same(got[0], want, tag + ":method", f"for {[type(v).__name__ for v in vals]} among {sigs}")
            ch.check(len(got[1]) == arity and all(a is b for a, b in zip(got[1], vals)) and got[2] == kwargs, tag + ":arguments", str(got))

    def one(ch):
        """one argument: all sets of signatures, all orders"""
        k = ch.pick("size", exp.q([1, 2, 3], [1, 2, 3, 4, 5]))
        order = ch.pick("order", list(itertools.permutations([(c,) for c in CLASSES], k)))
        how = ch.pick("how", ["set", "register", "annotated"])
        between = ch.flag("between")
        mm, sigs = start(how, order[0]), [order[0]]
        for s in order[1:]:
            if between:
                ask(ch, "one", mm, sigs, 1)
            add(mm, how, s)
            sigs.append(s)
        ask(ch, "one", mm, sigs, 1, {"key": 3})
        ask(ch, "one", mm, sigs, 1)
        if len(sigs) > 1:
            i = ch.pick("removed", list(range(len(sigs))))
            del mm[sigs[i]]
            del sigs[i]
            ask(ch, "one-removed", mm, sigs, 1)
        ch.state(order, [str(s) for s in sigs])

    def start(how, s):
        # not to be named f: multimethod looks its name up among the variables of its caller
        first = annotated(s) if how == "annotated" else method(s)
        if how == "annotated":
            return multimethod(first)
        mm = multimethod(first)
        # registered without annotations: its empty signature accepts everything
        del mm[()]
        add(mm, how, s)
        return mm

    def add(mm, how, s):
        if how == "set":
            mm[s] = method(s)
        elif how == "register":
            mm.register(*s)(method(s))
        else:
            space = {"f": mm, "multimethod": multimethod, "g": annotated(s)}
            exec("f = multimethod(g)", space)
            assert space["f"] is mm

    PAIRS = list(itertools.product([object, A, B, C], repeat=2))

    def two(ch):
        """two arguments"""
        k = ch.pick("size", exp.q([2, 3], [2, 3]))
        base = ch.pick("set", list(itertools.combinations(PAIRS, k)))
        if exp.thorough:
            order = ch.pick("order", list(itertools.permutations(base)))
        else:
            order = ch.pick("order", [base, base[::-1]] + ([base[1:] + base[:1]] if k == 3 else []))
        how = ch.pick("how", ["set", "annotated"] if k == 2 or exp.thorough else ["annotated"])
        mm, sigs = start(how, order[0]), [order[0]]
        for s in order[1:]:
            if k == 2:
                ask(ch, "two", mm, sigs, 2)
            add(mm, how, s)
            sigs.append(s)
        ask(ch, "two", mm, sigs, 2)
        del mm[sigs[0]]
        ask(ch, "two-removed", mm, sigs[1:], 2)
        ch.state([str(s) for s in order])

    def mixed(ch):
        """signatures of different lengths, replaced methods, methods of classes"""
        sigs = [(), (A,), (B, A), (B, C), (object, D)]
        k = ch.pick("size", [1, 2, 3, 4])
        order = ch.pick("order", list(itertools.permutations(sigs, k)))
        mm = start("set", order[0])
        done = [order[0]]
        for s in order[1:]:
            add(mm, "set", s)
            done.append(s)
        for arity in [1, 2]:
            for vals in itertools.product(VALUES, repeat=arity):
                types = tuple(map(type, vals))
                ok = [s for s in done if len(s) <= len(types) and all(issubclass(t, c) for t, c in zip(types, s))]
                low = [s for s in ok if not any(o != s and len(s) <= len(o) and all(issubclass(x, y) for x, y in zip(o, s)) for o in ok)]
                ch.op()
                try:
                    got = mm(*vals)
                except DispatchError:
                    ch.check(len(low) != 1, "mixed:error", f"{types} among {done}")
                    continue
                if len(low) == 1:
                    ch.same(got[0], low[0], "mixed:method", f"{types} among {done}")
                else:
                    ch.check(got[0] in low, "mixed:method", f"{types} among {done}: {got[0]}")
        # replaced
        last = order[-1]
        g = lambda *a: ("new", a, {})
        mm[last] = g
        vals = [v() for v in (D,) * max(1, len(last))]
        if best(done, tuple(map(type, vals))) == last:
            ch.same(mm(*vals)[0], "new", "mixed:replaced")
        ch.state([str(s) for s in order])

    def classes(ch):
        """methods of classes, forward references, generic types, predicates"""
        case = ch.pick("case", ["class", "forward", "generic", "union", "overload", "meta"])
        if case == "class":
            ns = {"multimethod": multimethod, "A": A, "B": B}
            exec("class K:\n    @multimethod\n    def f(self, x: A):\n        return ('A', self, x)\n    @multimethod\n    def f(self, x: B):\n        return ('B', self, x)\n    @multimethod\n    def f(self, x: int):\n        return ('int', self, x)\n", ns)
            k = ns["K"]()
            for v in VALUES:
                want = "B" if isinstance(v, B) else "A" if isinstance(v, A) else "int" if isinstance(v, int) else None
                try:
                    got = k.f(v)
                    ch.check(got[0] == want and got[1] is k and got[2] is v, "classes:class", f"{v}: {got}")
                except DispatchError:
                    ch.check(want is None, "classes:class", f"{v}")
        elif case == "forward":
            ns = {"multimethod": multimethod}
            exec("@multimethod\ndef f(x: 'Late'):\n    return 'late'\n@multimethod\ndef f(x: object):\n    return 'any'\nclass Late:\n    pass\n", ns)
            ch.same(ns["f"](ns["Late"]()), "late", "classes:forward")
            ch.same(ns["f"](1), "any", "classes:forward")
        elif case == "generic":
            ns = {"multimethod": multimethod, "List": typing.List, "Tuple": typing.Tuple, "Dict": typing.Dict}
            exec("@multimethod\ndef f(x: List[int]):\n    return 'ints'\n@multimethod\ndef f(x: List[str]):\n    return 'texts'\n@multimethod\ndef f(x: list):\n    return 'list'\n@multimethod\ndef f(x: Tuple[int, str]):\n    return 'pair'\n@multimethod\ndef f(x: Dict[str, int]):\n    return 'dict'\n", ns)
            f = ns["f"]
            for rnd in range(2):
                for v, w in [([1, 2], "ints"), (["a"], "texts"), ([1.0], "list"), ((1, "a"), "pair"), ({"a": 1}, "dict"), ([[1]], "list")]:
                    ch.same(f(v), w, "classes:generic", str(v))
                for v in [(1, 2), {"a": "b"}, 3]:
                    ch.raises(lambda: f(v), "classes:generic", str(v), DispatchError)
        elif case == "union":
            ns = {"multimethod": multimethod, "Union": typing.Union, "A": A}
            exec("@multimethod\ndef f(x: Union[int, A]):\n    return 'union'\n@multimethod\ndef f(x: object):\n    return 'any'\n", ns)
            for v in VALUES:
                ch.same(ns["f"](v), "union" if isinstance(v, (int, A)) else "any", "classes:union", str(v))
        elif case == "overload":
            ns = {"overload": overload, "isa": isa, "A": A, "B": B}
            exec("@overload\ndef f(x):\n    return 'any'\n@overload\ndef f(x: isa(A)):\n    return 'A'\n@overload\ndef f(x: isa(B), y=None):\n    return 'B'\n", ns)
            for v in VALUES:
                ch.same(ns["f"](v), "B" if isinstance(v, B) else "A" if isinstance(v, A) else "any", "classes:overload", str(v))
        else:
            ns = {"multimeta": multimeta, "A": A, "B": B}
            exec("class K(metaclass=multimeta):\n    def f(self, x: A):\n        return 'A'\n    def f(self, x: B):\n        return 'B'\n    def g(self):\n        return 'g'\n", ns)
            k = ns["K"]()
            ch.same([k.f(A()), k.f(B()), k.f(D()), k.g()], ["A", "B", "B", "g"], "classes:meta")
        ch.op()
        ch.state(case)

    exp.explore("one", one)
    exp.explore("two", two)
    exp.explore("mixed", mixed)
    exp.explore("classes", classes)
