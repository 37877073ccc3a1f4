"""C23  the cache on disk under interrupted writes and concurrent use.

Crashes: a child process runs a history of calls; file operations go through a stand-in which
ends the process (os._exit) after any number of bytes has been written, or before or after any
opening, renaming or removal.  What is left on disk is then used by a fresh process.  All crash
points of all histories of the menu are enumerated, and all truncations of the files.

Interleavings: two or three callers run as threads which are given control one at a time before
each file operation; all schedules are enumerated (up to a number of preemptions).
"""
import builtins
import io
import os
import threading

import numpy as np

from mc import kit
from mc.checks.c22 import Scratch, show
from mc.kit import dolo

import dolo.misc.caching as caching

RESULTS = {
    1: lambda: 12345,
    2: lambda: [1.5, "é", (2, None)],
    3: lambda: {"a": np.arange(3.0)},
}


def compute(x):
    return RESULTS[x]()


_open, _replace, _rename, _remove = builtins.open, os.replace, os.rename, os.remove


class Interposed:
    """calls `event(name, detail)` before and after file operations, `chunk(n)` to split writes"""

    def __init__(self, event, cut=None):
        self.event = event
        self.cut = cut

    def __enter__(self):
        me = self

        class Raw(io.FileIO):
            def write(self, b):
                b = bytes(b)
                me.event("write", len(b))
                if me.cut is not None:
                    k = me.cut(len(b))
                    if k is not None:
                        super().write(b[:k])
                        os._exit(7)
                half = len(b) // 2
                if half:
                    super().write(b[:half])
                    me.event("half", 0)
                super().write(b[half:])
                me.event("written", 0)
                return len(b)

        def opened(file, mode="r", *a, **k):
            if not isinstance(file, (str, os.PathLike)):
                return _open(file, mode, *a, **k)
            me.event("open", mode)
            if "w" in mode or "x" in mode or "a" in mode:
                raw = Raw(file, mode.replace("b", "").replace("t", ""))
                me.event("opened", mode)
                f = io.BufferedWriter(raw)
                return f if "b" in mode else io.TextIOWrapper(f, encoding="utf8")
            f = _open(file, mode, *a, **k)
            me.event("opened", mode)
            return f

        def around(name, fn):
            def g(*a, **k):
                me.event(name, "")
                r = fn(*a, **k)
                me.event(name + "d", "")
                return r

            return g

        builtins.open = opened
        os.replace = around("replace", _replace)
        os.rename = around("rename", _rename)
        os.remove = around("remove", _remove)
        return self

    def __exit__(self, *a):
        builtins.open, os.replace, os.rename, os.remove = _open, _replace, _rename, _remove


def in_child(fn):
    """run in a forked process; its exit status, and whether it raised"""
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            fn()
            code = 0
        except BaseException:
            code = 8
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def run(exp):
    exp.assume("a crash loses what was not yet written and keeps a prefix of what was; renaming a file is atomic")
    exp.assume("file operations are made with open, os.replace, os.rename and os.remove")

    def count_events(history, prior):
        """events and bytes of a history without crash"""
        ev = []
        with Scratch():
            for x in prior:
                caching.cachedondisk(compute)(x)
            f = caching.cachedondisk(compute)
            with Interposed(lambda n, d: ev.append((n, d))):
                for x in history:
                    f(x)
        return ev

    def judge(ch, tag, xs):
        """a fresh process gets the right values, whatever was left"""
        f = caching.cachedondisk(compute)
        for rnd in range(2):
            for x in xs:
                try:
                    v = f(x)
                except Exception as e:
                    ch.fail(f"{tag}:unusable", f"call {x} raises {type(e).__name__}: {e}; files {sorted(os.listdir('.cache'))}")
                ch.same(show(v), show(compute(x)), f"{tag}:value", f"call {x}")
        ch.op(n=2 * len(xs))

    def crash(ch):
        prior = ch.pick("before", [(), (1,), (2,), (1, 2, 3)])
        history = ch.pick("history", [(1,), (2,), (3,), (1, 2), (2, 1), (3, 3, 1)])
        ev = count_events(history, prior)
        point = ch.pick("event", list(range(len(ev))))
        name, detail = ev[point]
        cut = ch.pick("bytes", list(range(detail + 1)) if name == "write" else [None])
        again = ch.pick("after", [(1, 2, 3), (3, 2, 1)])
        with Scratch():
            for x in prior:
                caching.cachedondisk(compute)(x)

            def child():
                n = [0]

                def event(a, b):
                    n[0] += 1
                    if n[0] == point + 1 and cut is None:
                        os._exit(7)

                f = caching.cachedondisk(compute)
                with Interposed(event, lambda size: cut if n[0] == point + 1 else None):
                    for x in history:
                        f(x)

            ch.same(in_child(child), 7, "crash:replayed", "the crash point was not reached")
            ch.op(f"crash at {name} {detail}")
            judge(ch, "crash", again)
            ch.state(prior, history, point, cut)

    def torn(ch):
        """every truncation of the files, and their tails lost"""
        which = ch.pick("value", [1, 2, 3])
        with Scratch():
            f = caching.cachedondisk(compute)
            f(which)
            names = sorted(os.listdir(".cache"))
            name = os.path.join(".cache", names[0])
            with open(name, "rb") as h:
                data = h.read()
            n = ch.pick("length", list(range(len(data))))
            how = ch.pick("tail", ["cut", "zeros", "ones"])
            tail = {"cut": b"", "zeros": b"\0" * (len(data) - n), "ones": b"\xff" * (len(data) - n)}[how]
            with open(name, "wb") as h:
                h.write(data[:n] + tail)
            judge(ch, "torn", (which, 1))
            if ch.flag("dictionary"):
                d = caching.DiskDictionary(directory="store", funname="f")
                d[(which,)] = compute(which)
                p = os.path.join("store", os.listdir("store")[0])
                with open(p, "rb") as h:
                    data = h.read()
                m = min(n, len(data) - 1)
                with open(p, "wb") as h:
                    h.write(data[:m])
                got = d.get((which,))
                ch.check(got is None, "torn:dictionary", f"got {got}")
                d[(which,)] = compute(which)
                ch.same(show(d.get((which,))), show(compute(which)), "torn:dictionary")
            ch.state(which, n, how)

    def schedule(ch, bodies, preemptions):
        """run callers one at a time; a choice before each file operation"""
        n = len(bodies)
        turn = [None]
        cond = threading.Condition()
        waiting, done, errors = set(), set(), []
        me = threading.local()

        def event(a, b):
            i = getattr(me, "i", None)
            if i is None:
                return
            with cond:
                waiting.add(i)
                turn[0] = None
                cond.notify_all()
                while turn[0] != i:
                    cond.wait(30)
                waiting.discard(i)

        def runner(i):
            me.i = i
            try:
                event("start", "")
                bodies[i]()
            except Exception as e:
                errors.append((i, e))
            finally:
                with cond:
                    done.add(i)
                    turn[0] = None
                    cond.notify_all()

        threads = [threading.Thread(target=runner, args=(i,), daemon=True) for i in range(n)]
        used, last, steps = 0, None, 0
        with Interposed(event):
            for t in threads:
                t.start()
            while True:
                with cond:
                    while turn[0] is not None or len(waiting) + len(done) < n:
                        cond.wait(30)
                    ready = sorted(waiting)
                    if not ready:
                        break
                if last in ready:
                    menu = [last] + ([i for i in ready if i != last] if used < preemptions else [])
                else:
                    menu = ready
                i = ch.pick("turn", menu) if len(menu) > 1 else menu[0]
                if last in ready and i != last:
                    used += 1
                last = i
                steps += 1
                with cond:
                    waiting.discard(i)
                    turn[0] = i
                    cond.notify_all()
            for t in threads:
                t.join()
        ch.op(n=steps)
        return errors

    def concurrent(ch):
        """callers at the same time"""
        plan = ch.pick("callers", [((1,), (1,)), ((1,), (2,)), ((2, 2), (2,)), ((1, 2), (2, 1)), ((3,), (3,), (3,)), ((1,), (1,), (2,))])
        prior = ch.pick("before", ["empty", "stored", "torn"])
        with Scratch():
            f0 = caching.cachedondisk(compute)
            if prior != "empty":
                f0(1)
                f0(2)
                if prior == "torn":
                    for name in os.listdir(".cache"):
                        p = os.path.join(".cache", name)
                        with open(p, "rb") as h:
                            data = h.read()
                        with open(p, "wb") as h:
                            h.write(data[: len(data) // 2])
            got = []

            def body(xs):
                f = caching.cachedondisk(compute)

                def run_():
                    for x in xs:
                        got.append((x, show(f(x))))

                return run_

            errors = schedule(ch, [body(xs) for xs in plan], exp.q(2, 3) if len(plan) == 2 else exp.q(1, 2))
            if errors:
                ch.fail("concurrent:error", f"caller {errors[0][0]}: {type(errors[0][1]).__name__}: {errors[0][1]}")
            ch.same(len(got), sum(len(p) for p in plan), "concurrent:calls")
            for x, v in got:
                ch.same(v, show(compute(x)), "concurrent:value", f"call {x}")
            judge(ch, "concurrent", (1, 2, 3))
            n = []

            def counted(x):
                n.append(x)
                return compute(x)

            ch.state(plan, prior, [x for x, _ in got])

    def dictionary(ch):
        """a store written and read at the same time"""
        plan = ch.pick("callers", [("w1", "r"), ("w1", "w2"), ("w1", "w2", "r"), ("w1", "r", "r")])
        prior = ch.flag("stored")
        with Scratch():
            caching.DiskDictionary(directory="store", funname="f")
            if prior:
                caching.DiskDictionary(directory="store", funname="f")[("k",)] = [0] * 5
            seen = []

            def body(what):
                d = caching.DiskDictionary(directory="store", funname="f")
                if what == "r":
                    return lambda: seen.append(d.get(("k",)))
                v = [int(what[1])] * 5

                def w():
                    d[("k",)] = v

                return w

            errors = schedule(ch, [body(w) for w in plan], exp.q(3, 4) if len(plan) == 2 else exp.q(2, 3))
            if errors:
                ch.fail("dictionary:error", f"{type(errors[0][1]).__name__}: {errors[0][1]}")
            allowed = [[int(w[1])] * 5 for w in plan if w != "r"]
            for v in seen:
                ch.check(v in allowed + ([[0] * 5] if prior else [None]), "dictionary:read", f"read {v}")
            last = caching.DiskDictionary(directory="store", funname="f").get(("k",))
            ch.check(last in allowed, "dictionary:last", f"read {last}")
            ch.state(plan, prior, seen, last)

    exp.explore("crash", crash)
    exp.explore("torn", torn)
    exp.explore("concurrent", concurrent)
    exp.explore("dictionary", dictionary)
