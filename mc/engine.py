"""Stateless explorer.

A *scenario* is a function of a `Ch` (choice) object.  Every decision the
environment makes (which operation is applied next, which argument, where the
crash happens, who is scheduled) is taken with `ch.pick`, which enumerates a
finite menu.  `Explorer.explore` runs the scenario once per complete sequence of
choices, depth first, until every sequence has been run: the exploration is
exhaustive within the menus.  Assertions are made with `ch.check`, `ch.close`.
"""
import hashlib
import io
import json
import multiprocessing
import os
import pickle
import selectors
import signal
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig
        self.msg = msg


class Diverged(Exception):
    pass


class Hang(BaseException):
    pass


EXECUTION_LIMIT = 120
JOBS = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))


def _alarm(*a):
    raise Hang()


class Prune(Exception):
    """The current choice sequence is outside the explored space."""


def digest(o):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, o)
    return h.digest()


def _feed(h, o):
    if isinstance(o, np.ndarray):
        h.update(str(o.shape).encode())
        h.update(np.ascontiguousarray(np.round(o.astype(float), 9) + 0.0).tobytes())
    elif isinstance(o, (float, np.floating)):
        h.update(repr(round(float(o), 9) + 0.0).encode())
    elif isinstance(o, dict):
        h.update(b"{")
        for k in sorted(o, key=repr):
            _feed(h, k)
            _feed(h, o[k])
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for e in o:
            _feed(h, e)
        h.update(b"]")
    else:
        h.update(repr(o).encode())
    h.update(b";")


class Ch:
    def __init__(self, exp, prefix):
        self.exp = exp
        self.prefix = prefix
        self.choices = []  # indices
        self.sizes = []
        self.trace = []  # readable
        self.obs = hashlib.blake2b(digest_size=12)

    def pick(self, label, options):
        options = list(options)
        if not options:
            raise Prune()
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(options):
                raise Diverged(
                    f"replaying choice {i} ({label}): {c} of {len(options)} options"
                )
        else:
            c = 0
        self.choices.append(c)
        self.sizes.append(len(options))
        v = options[c]
        name = v
        if isinstance(v, tuple) and len(v) == 2 and callable(v[1]):
            name = v[0]
        if callable(v) and hasattr(v, "__name__"):
            name = v.__name__
        self.trace.append(f"{label}={_short(name)}")
        return v

    def flag(self, label):
        return self.pick(label, [False, True])

    def prune(self):
        raise Prune()

    def op(self, what=None, n=1):
        """one operation (transition) applied to the real code"""
        self.exp.transitions += n
        if what is not None:
            self.trace.append(_short(what))

    def state(self, *obs):
        """an observed state of the real code"""
        d = digest(obs)
        self.exp.states.add(d)
        self.obs.update(d)

    # -- assertions
    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def check(self, cond, sig, msg=""):
        self.exp.assertions += 1
        if not cond:
            m = msg() if callable(msg) else msg
            raise Violation(sig, m)

    def close(self, got, want, sig, tol=1e-9, msg=""):
        self.exp.assertions += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(
                sig, f"{msg}: shape {g.shape}, expected {w.shape}; got {_short(g)}"
            )
        if g.size == 0:
            return
        both_nan = np.isnan(g) & np.isnan(w)
        same = (g == w) | both_nan
        with np.errstate(all="ignore"):
            ok = same | (np.abs(g - w) <= tol * (1 + np.abs(w)))
        if not ok.all():
            raise Violation(sig, f"{msg}: got {_short(g)}, expected {_short(w)}")

    def same(self, got, want, sig, msg=""):
        self.exp.assertions += 1
        if got != want:
            raise Violation(sig, f"{msg}: got {_short(got)}, expected {_short(want)}")

    def raises(self, f, sig, msg="", exc=Exception):
        self.exp.assertions += 1
        try:
            r = f()
        except exc:
            return
        raise Violation(sig, f"{msg}: accepted, returned {_short(r)}")


def _short(o, n=400):
    s = np.array2string(o, precision=8, threshold=24) if isinstance(o, np.ndarray) else str(o)
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."


class Explorer:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.states = set()
        self.transitions = 0
        self.assertions = 0
        self.traces = 0
        self.pruned = 0
        self.replayed = 0
        self.violations = []  # (scenario, sig, msg, choices, trace)
        self.samples = []
        self.scenarios = {}
        self.assumptions = []
        self.notes = {}
        self.capped = []
        self.t0 = time.time()
        start = float(os.environ.get("VERIF_START", time.time()))
        self.deadline = start + (5.5 * 3600 if self.thorough else 700)
        self.marker = os.environ.get("VERIF_MARKER")
        self.known = set()
        self.max_violations = 4
        self.only = None  # (scenario, choices) when replaying
        self._last_mark = 0.0

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, **kw):
        self.notes.update(kw)

    def assume(self, *a):
        self.assumptions.extend(a)

    def _mark(self, name, ch):
        if not self.marker:
            return
        now = time.time()
        if now - self._last_mark < 0.05:
            return
        self._last_mark = now
        with open(self.marker, "w") as f:
            json.dump({"scenario": name, "choices": ch}, f)

    def _one(self, name, fn, prefix):
        ch = Ch(self, prefix)
        self._mark(name, list(prefix))
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, EXECUTION_LIMIT)
        try:
            fn(ch)
            return ch, None
        except Prune:
            return ch, "prune"
        except Diverged:
            raise
        except Violation as v:
            return ch, v
        except Hang as e:
            v = Violation("no-answer", f"execution not over after {EXECUTION_LIMIT} s")
            v.tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            return ch, v
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for fr in reversed(tb):
                if "/mc/" not in fr.filename:
                    where = f"{fr.filename.split('/')[-1]}:{fr.name}"
                    break
            sig = f"exception:{type(e).__name__}:{where}"
            msg = "".join(traceback.format_exception_only(type(e), e)).strip()
            v = Violation(sig, f"unexpected exception {msg} in {where}")
            v.tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            return ch, v
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    # ---- depth-first enumeration of one subtree
    def _subtree(self, name, fn, base, limit):
        prefix = list(base)
        r = dict(
            base=tuple(base), n=0, pruned=0, depth=0, capped=False, violations=[],
            first=None, last=None, sample=None,
        )
        sigs = set()
        while True:
            if time.time() > self.deadline:
                r["capped"] = True
                break
            ch, v = self._one(name, fn, prefix)
            r["depth"] = max(r["depth"], len(ch.choices))
            if len(base) == 1 and not self._replay_all and ch.sizes and ch.sizes[0] != self._fan:
                raise Diverged(f"{name}: fan is {self._fan}, the first choice has {ch.sizes[0]} options")
            if v == "prune":
                r["pruned"] += 1
            else:
                r["n"] += 1
                if r["first"] is None:
                    r["first"] = (list(ch.choices), ch.obs.digest())
                r["last"] = (list(ch.choices), ch.obs.digest())
                r["sample"] = ch.trace
            if isinstance(v, Violation) and v.sig not in sigs:
                sigs.add(v.sig)
                r["violations"].append(
                    (name, v.sig, v.msg + ("\n" + v.tb if hasattr(v, "tb") else ""), ch.choices, ch.trace)
                )
                if len(sigs) >= limit:
                    break
            c, n = list(ch.choices), list(ch.sizes)
            while len(c) > len(base) and c[-1] + 1 >= n[-1]:
                c.pop()
                n.pop()
            if len(c) <= len(base):
                break
            c[-1] += 1
            prefix = c
        return r

    def _split(self, name, fn, want):
        """prefixes whose subtrees partition the choice tree"""
        todo, done = [()], []
        while todo and len(todo) + len(done) < want:
            p = todo.pop(0)
            save = self._freeze()
            ch, v = self._one(name, fn, list(p))
            self._thaw(save)
            if len(ch.choices) <= len(p):
                done.append(p)
            else:
                n = ch.sizes[len(p)]
                todo.extend(p + (k,) for k in range(n))
        return sorted(done + todo)

    def _freeze(self):
        return set(self.states), self.transitions, self.assertions

    def _thaw(self, s):
        self.states, self.transitions, self.assertions = s

    def _worker(self, k, name, fn, prefixes, limit, take, w):
        """explores subtrees, sends one pickled result per subtree"""
        if self.marker:
            self.marker = f"{self.marker}.{k}"
        self.states = set()
        with os.fdopen(w, "wb") as out:
            while True:
                with take.get_lock():
                    j = take.value
                    take.value += 1
                if j >= len(prefixes):
                    break
                self.transitions = self.assertions = self.replayed = 0
                self.states = set()
                try:
                    r = self._subtree(name, fn, prefixes[j], limit)
                    if not r["violations"] and not r["capped"] and (j == 0 or self._replay_all):
                        self._again(name, fn, r)
                except BaseException:
                    r = dict(error=traceback.format_exc())
                r["index"] = j
                r["states"] = self.states
                r["transitions"] = self.transitions
                r["assertions"] = self.assertions
                r["replayed"] = self.replayed
                pickle.dump(r, out)
                out.flush()
                if r.get("error") or any(
                    f"{v[0]}/{v[1]}" not in self.known for v in r["violations"]
                ):
                    take.value = len(prefixes)

    def _again(self, name, fn, r):
        """determinism: first and last executions, run again, observe the same"""
        save = self._freeze()
        olds = [r["first"]] if r["first"] == r["last"] else [r["first"], r["last"]]
        for old in olds:
            if old is None:
                continue
            again, v = self._one(name, fn, old[0])
            self.replayed += 1
            if isinstance(v, Violation) or again.obs.digest() != old[1]:
                r["violations"].append(
                    (
                        name,
                        "replay-differs",
                        "the same execution run twice was observed to differ"
                        + (f": {v.msg}" if isinstance(v, Violation) else ""),
                        again.choices,
                        again.trace,
                    )
                )
                break
        self._thaw(save)

    def _fork(self, name, fn, prefixes, limit):
        take = multiprocessing.Value("i", 0)
        workers = []
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(min(JOBS, len(prefixes))):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    self._worker(k, name, fn, prefixes, limit, take, w)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(w)
            workers.append((pid, r, k))
        out = []
        bufs = {r: b"" for _, r, _ in workers}
        sel = selectors.DefaultSelector()
        for _, r, _ in workers:
            sel.register(r, selectors.EVENT_READ)
        live = len(workers)
        while live:
            for key, _ in sel.select():
                data = os.read(key.fd, 1 << 16)
                if data:
                    bufs[key.fd] += data
                else:
                    sel.unregister(key.fd)
                    live -= 1
        for pid, r, k in workers:
            _, status = os.waitpid(pid, 0)
            os.close(r)
            f = io.BytesIO(bufs[r])
            while True:
                try:
                    out.append(pickle.load(f))
                except EOFError:
                    break
                except pickle.UnpicklingError:
                    break
            if status != 0:
                cur = {"choices": []}
                try:
                    cur = json.load(open(f"{self.marker}.{k}"))
                except Exception:
                    pass
                out.append(
                    dict(
                        base=(), index=-1, n=0, pruned=0, depth=0, capped=False, first=None, last=None,
                        sample=None, states=set(), transitions=0, assertions=0, replayed=0,
                        violations=[(name, "process-ended",
                                     f"the checked code ended the process (status {status})",
                                     cur["choices"], [])],
                    )
                )
        return sorted(out, key=lambda r: r["index"])

    def explore(self, name, fn, max_violations=None, jobs=None, fan=None):
        """run `fn` for every complete choice sequence

        fan: number of options of the first choice, for scenarios whose executions are
        expensive (no probing run, and only the first subtree is replayed)
        """
        self._replay_all = fan is None
        self._fan = fan
        if self.only is not None:
            if self.only[0] != name:
                return
            ch, v = self._one(name, fn, self.only[1])
            self.traces += 1
            print("replayed:", name, " | ".join(ch.trace))
            print("result:", "no violation" if v is None else v)
            if isinstance(v, Violation):
                print(getattr(v, "tb", ""))
                self.violations.append((name, v.sig, v.msg, ch.choices, ch.trace))
            return
        limit = max_violations or self.max_violations
        t0 = time.time()
        s0 = len(self.states)
        njobs = JOBS if jobs is None else jobs
        if njobs <= 1:
            prefixes = [()]
        elif fan is not None:
            prefixes = [(k,) for k in range(fan)]
        else:
            prefixes = self._split(name, fn, 48)
        if len(prefixes) > 1:
            results = self._fork(name, fn, prefixes, limit)
        else:
            save, tr, a = self.states, self.transitions, self.assertions
            self.states, self.transitions, self.assertions = set(), 0, 0
            rep = self.replayed
            r = self._subtree(name, fn, (), limit)
            if not r["violations"] and not r["capped"]:
                self._again(name, fn, r)
            r.update(states=self.states, transitions=self.transitions,
                     assertions=self.assertions, replayed=self.replayed - rep)
            self.states, self.transitions, self.assertions, self.replayed = save, tr, a, rep
            results = [r]
        sigs = set()
        n = trans = depth = 0
        capped = False
        sample = None
        for r in results:
            if "error" in r:
                raise RuntimeError(f"{name}: harness failure in a worker\n" + r["error"])
            n += r["n"]
            self.pruned += r["pruned"]
            trans += r["transitions"]
            self.assertions += r["assertions"]
            self.replayed += r["replayed"]
            self.states |= r["states"]
            depth = max(depth, r["depth"])
            capped = capped or r["capped"]
            sample = r["sample"] or sample
            for v in r["violations"]:
                if v[1] not in sigs and len(sigs) < limit:
                    sigs.add(v[1])
                    self.violations.append(v)
        self.traces += n
        self.transitions += trans
        if capped:
            self.capped.append(name)
        self.scenarios[name] = dict(
            executions=n,
            new_states=len(self.states) - s0,
            transitions=trans,
            depth=depth,
            complete=not capped and not sigs,
            wall_s=round(time.time() - t0, 2),
        )
        if sample is not None and len(self.samples) < 12:
            self.samples.append(f"{name}: " + " | ".join(sample)[:600])
