"""Shared by the checks: importing the code under test, building small models.

`fast()` replaces the numba step of dolang (a dependency of the checked code, not
part of it) by plain numpy execution of the very same generated function, so that
thousands of small models can be compiled.  Each check that uses it also runs a
part of its scenarios with the real numba compilation (`real()`).
"""
import contextlib
import io
import os
import sys
import tempfile
import textwrap

import numpy as np

import lark
import dolang.function_compiler as _fc

# Parsing is the slow part of compiling a small model: the parser (a dependency) is a
# pure function of its text, so its results are remembered; every caller gets its own
# copy of the tree.
_parse = lark.Lark.parse
_parsed = {}


def _clone(t):
    if isinstance(t, lark.Tree):
        c = lark.Tree(t.data, [_clone(e) for e in t.children])
        if hasattr(t, "_meta"):
            c._meta = t._meta
        return c
    return t


def _parse_once(self, text, start=None, on_error=None):
    if on_error is not None or not isinstance(text, str):
        return _parse(self, text, start, on_error)
    key = (id(self), text, start)
    if key not in _parsed:
        _parsed[key] = _parse(self, text, start)
    return _clone(_parsed[key])


lark.Lark.parse = _parse_once

_real_make = _fc.make_method_from_factory
_mode = {"fast": False, "strict": False}


def _strict(fun, fff):
    """what the compiler would refuse: names which are not defined (anywhere, or not yet)"""
    import builtins

    for n in fun.__code__.co_names:
        if n not in fun.__globals__ and not hasattr(builtins, n):
            raise NameError(f"name '{n}' is not defined in {fff.funname}")
    with np.errstate(all="ignore"):
        fun(*[np.full(len(v), 1.25) for v in fff.arguments.values()], np.zeros(len(fff.content)))


def _fast_make(fff, vectorize=True, use_file=False, debug=False, compile=True):
    mod = _fc.compile_factory(fff)
    fun = _fc.eval_ast(mod)
    if _mode["strict"]:
        _strict(fun, fff)
    coredims = [len(v) for v in fff.arguments.values()]
    n_out = len(fff.content)
    nin = len(coredims)

    def gufun(*args, out=None):
        if len(args) > nin:
            out = args[nin]
        ins = [np.asarray(a, dtype=float) for a in args[:nin]]
        for a, d in zip(ins, coredims):
            if a.shape[-1] != d:
                raise ValueError(
                    f"{fff.funname}: argument with {a.shape[-1]} values, expected {d}"
                )
        shapes = [a.shape[:-1] for a in ins]
        if out is not None:
            shapes.append(out.shape[:-1])
            if out.shape[-1] != n_out:
                raise ValueError(f"{fff.funname}: wrong output dimension")
        shape = np.broadcast_shapes(*shapes)
        if out is None:
            out = np.zeros(shape + (n_out,))
        elif out.shape[:-1] != shape:
            raise ValueError("non-broadcastable output operand")
        bins = [np.moveaxis(np.broadcast_to(a, shape + a.shape[-1:]), -1, 0) for a in ins]
        res = np.zeros((n_out,) + shape)
        with np.errstate(all="ignore"):
            fun(*bins, res)
        out[...] = np.moveaxis(res, 0, -1)
        return out

    def jfun(*args):
        with np.errstate(all="ignore"):
            return fun(*args)

    if vectorize:
        return jfun, gufun
    return jfun


def _make(*args, **kwargs):
    if _mode["fast"]:
        return _fast_make(*args, **kwargs)
    return _real_make(*args, **kwargs)


_fc.make_method_from_factory = _make


@contextlib.contextmanager
def fast():
    old = _mode["fast"]
    _mode["fast"] = True
    try:
        yield
    finally:
        _mode["fast"] = old


@contextlib.contextmanager
def real():
    old = _mode["fast"]
    _mode["fast"] = False
    try:
        yield
    finally:
        _mode["fast"] = old


def use_fast(v=True, strict=False):
    _mode["fast"] = v
    _mode["strict"] = strict


@contextlib.contextmanager
def quiet():
    """discard what the checked code prints"""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


with quiet():
    import dolo  # noqa: E402

assert os.path.realpath(dolo.__file__).startswith("/repo/"), dolo.__file__
import warnings  # noqa: E402

warnings.filterwarnings("ignore")

def tmp():
    """a scratch directory of this process"""
    d = os.path.join(tempfile.gettempdir(), f"verif_{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


def model(text, check=False, name="m.yaml"):
    """import a model from YAML text through the public entry point"""
    path = os.path.join(tmp(), name)
    with open(path, "w", encoding="utf8") as f:
        f.write(textwrap.dedent(text))
    with quiet():
        return dolo.yaml_import(path, check=check)


def example(name, check=False):
    with quiet():
        return dolo.yaml_import(f"/repo/examples/models/{name}.yaml", check=check)


def rng_state():
    import random

    return np.random.get_state(), random.getstate()


def spans(n, k):
    """all n-tuples over range(k)"""
    import itertools

    return list(itertools.product(range(k), repeat=n))


class enumerated_random:
    """Within this context, the global random source of numpy goes through all of its 2**bits equally
    spaced outputs, once each (in bit-reversed order, so that any long enough part of it is evenly spread).

    Frequencies of `2**bits` independent draws are then the probabilities of the law, up to rounding.
    """

    def __init__(self, bits=12):
        import ctypes
        import threading

        V = ctypes.c_void_p
        U64, U32, D = ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double

        class bitgen_t(ctypes.Structure):
            _fields_ = [
                ("state", V),
                ("next_uint64", ctypes.CFUNCTYPE(U64, V)),
                ("next_uint32", ctypes.CFUNCTYPE(U32, V)),
                ("next_double", ctypes.CFUNCTYPE(D, V)),
                ("next_raw", ctypes.CFUNCTYPE(U64, V)),
            ]

        n = 1 << bits
        rev = [int(format(i, f"0{bits}b")[::-1], 2) for i in range(n)]
        self.k = 0

        def step():
            k = self.k % n
            self.k += 1
            return k

        # both the highest and the lowest bits are enumerated
        def u32(_):
            k = step()
            return (rev[k] << (32 - bits)) | k

        def u64(_):
            k = step()
            return (rev[k] << (64 - bits)) | k

        def dbl(_):
            return (rev[step()] + 0.5) / n

        F = dict(bitgen_t._fields_)
        self.struct = bitgen_t(None, F["next_uint64"](u64), F["next_uint32"](u32), F["next_double"](dbl), F["next_raw"](u64))
        self.lock = threading.Lock()
        self.cname = b"BitGenerator"
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [V, ctypes.c_char_p, V]
        self.capsule = new(ctypes.addressof(self.struct), self.cname, None)

    def _legacy_seeding(self, seed):
        self.k = 0

    state = {"bit_generator": "enumerated"}

    def __enter__(self):
        import numpy

        self.old = numpy.random.get_bit_generator()
        numpy.random.set_bit_generator(self)
        return self

    def __exit__(self, *a):
        import numpy

        numpy.random.set_bit_generator(self.old)
