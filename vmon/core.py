"""Monitoring core: hooks on the real code, verdict bookkeeping, worker pool.

A *check* is a set of scenarios.  A scenario is a workload generator plus a deterministic oracle: it
drives the real exact_diag code (imported from /repo's working tree) on inputs drawn from a random stream
which only depends on (VERIF_SEED, property, scenario, case index), and reports what it observed to a Ctx.
"""
import contextlib
import functools
import hashlib
import io
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np
import scipy.sparse as sp


_NUMBER = re.compile(r"(?<![A-Za-z])[-+]?\d+(\.\d*)?(e[-+]?\d+)?")


@functools.lru_cache(maxsize=20000)
def _label(what):
    """what was decided, without the numbers of the case"""
    return _NUMBER.sub("#", what.split(":")[0])


class Violation(Exception):
    """The observed behaviour contradicts the property."""


class CaseTimeout(BaseException):
    """Watchdog: the case is inconclusive."""


def dense(a):
    """Bring whatever the code returned (sparse, matrix, list, scalar) to an ndarray."""
    if sp.issparse(a):
        return a.toarray()
    return np.asarray(a)


def stable_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if sp.issparse(p):
            p = p.toarray()
        if isinstance(p, np.ndarray):
            h.update(str(p.shape).encode())
            h.update(np.ascontiguousarray(p).tobytes() if p.dtype != object else repr(p.tolist()).encode())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()[:16]


class Ctx:
    """Everything one case needs: its random stream, and what its monitors observed."""

    def __init__(self, rng, tier, scenario, index):
        self.rng = rng
        self.tier = tier
        self.scenario = scenario
        self.index = index
        self.events = Counter()
        self.keys = set()
        self.desc = []

    # ---- observation log
    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, *key):
        """Register a distinct, non-trivial situation which an oracle judged."""
        self.keys.add(stable_hash(self.scenario, *key))

    def describe(self, **kw):
        self.desc.append(kw)

    # ---- oracles
    def check(self, cond, what):
        self.event("oracle:" + _label(what))
        if not bool(cond):
            raise Violation(what)

    def close(self, got, want, what, tol=1e-9, shape=True):
        """got == want up to floating point error (absolute and relative to the largest entry)."""
        self.event("oracle:" + _label(what))
        if sp.issparse(got) and sp.issparse(want) and got.shape == want.shape and np.prod(got.shape, dtype=float) > 2e6:
            g, w = sp.csr_matrix(got), sp.csr_matrix(want)
            if not np.all(np.isfinite(g.data)):
                raise Violation(f"{what}: result is not finite")
            d = abs(g - w).tocoo()
            if d.nnz and not d.data.max() <= tol * (1 + (abs(w).max() if w.nnz else 0)):
                k = int(np.argmax(d.data))
                i = (int(d.row[k]), int(d.col[k]))
                raise Violation(f"{what}: max error {d.data[k]:.3g} at {i}: got {g[i]}, expected {w[i]}")
            return
        g, w = dense(got), dense(want)
        if shape and g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape} instead of {w.shape}")
        if not shape:
            if g.size != w.size:
                raise Violation(f"{what}: size {g.size} instead of {w.size}")
            g, w = g.reshape(-1), w.reshape(-1)
        if g.size == 0:
            return
        try:
            g = g.astype(complex)
        except (TypeError, ValueError):
            raise Violation(f"{what}: result is not numeric ({g.dtype})")
        w = w.astype(complex)
        if not np.all(np.isfinite(g)):
            raise Violation(f"{what}: result is not finite")
        err = np.max(np.abs(g - w))
        if not err <= tol * (1 + np.max(np.abs(w))):
            i = np.unravel_index(np.argmax(np.abs(g - w)), g.shape)
            raise Violation(f"{what}: max error {err:.3g} at {tuple(int(x) for x in i)}: got {g[i]}, expected {w[i]}")

    def raises(self, fn, what, exc=Exception):
        self.event("oracle:" + _label(what))
        try:
            with quiet():
                fn()
        except exc:
            return
        raise Violation(f"{what}: invalid input was accepted")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


# ---------------------------------------------------------------- hooks on the real code

class Taps:
    """Wrap functions of the code under test where they live; count the calls and run post-conditions.

    References bound by `from m import f` inside the package are re-bound too.  A name which does not exist
    (any more) is skipped: the scenarios call the public interface themselves.
    """

    def __init__(self):
        self.counts = Counter()
        self.depth = 0

    def modules(self):
        return [m for n, m in sys.modules.items() if n == "exact_diag" or n.startswith("exact_diag.")]

    def tap(self, owner, name, post=None):
        orig = owner.__dict__.get(name)
        if orig is None:
            return False
        static = isinstance(orig, staticmethod)
        clsm = isinstance(orig, classmethod)
        fn = orig.__func__ if (static or clsm) else orig
        label = f"{getattr(owner, '__name__', owner)}.{name}".replace("exact_diag.", "")
        counts = self.counts

        @functools.wraps(fn)
        def wrapper(*a, **k):
            counts[label] += 1
            res = fn(*a, **k)
            if post is not None:
                post(res, *a, **k)
            return res

        new = staticmethod(wrapper) if static else classmethod(wrapper) if clsm else wrapper
        setattr(owner, name, new)
        if not isinstance(owner, type):
            for m in self.modules():
                for k, v in list(vars(m).items()):
                    if v is fn:
                        setattr(m, k, wrapper)
        return True


# ---------------------------------------------------------------- running

def case_rng(seed, prop, scenario, index):
    words = np.frombuffer(hashlib.sha256(f"{seed}/{prop}/{scenario}/{index}".encode()).digest(), dtype=np.uint32)
    return np.random.default_rng(words.tolist())


_STATE = {}


def _init_worker(prop, seed, tier):
    from . import load
    _STATE.update(prop=prop, seed=seed, tier=tier, mod=load.load(prop), taps=Taps())
    load.install_taps(prop, _STATE["mod"], _STATE["taps"])


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(scenario, index):
    mod, seed, tier = _STATE["mod"], _STATE["seed"], _STATE["tier"]
    limit = 240 if tier == "quick" else 2400
    cpu = time.process_time()
    ctx = Ctx(case_rng(seed, _STATE["prop"], scenario, index), tier, scenario, index)
    taps = _STATE["taps"]
    taps.counts.clear()
    fn = mod.SCENARIOS[scenario][0]
    verdict, msg, tb = "held", "", ""
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with quiet():
            fn(ctx)
    except Violation as e:
        verdict, msg, tb = "violated", str(e), traceback.format_exc()
    except CaseTimeout:
        # the slowest case takes about a tenth of this: a process that was really computing all the time does not come back
        stuck = time.process_time() - cpu > 0.7 * limit
        verdict, msg = ("violated", f"no answer within {limit} s of computing") if stuck else ("inconclusive", f"watchdog after {limit} s")
    except MemoryError:
        verdict, msg = "inconclusive", "out of memory"
    except Exception as e:  # valid input must not raise: scenarios never raise on the unchanged tree
        verdict, msg, tb = "violated", f"exception on valid input: {type(e).__name__}: {e}", traceback.format_exc()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.events.update({"call:" + k: v for k, v in taps.counts.items()})
    return dict(scenario=scenario, index=index, verdict=verdict, msg=msg, tb=tb, events=dict(ctx.events),
                keys=list(ctx.keys), desc=ctx.desc[:3], t=time.time() - t0)


def _task(args):
    return run_case(*args)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if sp.issparse(x):
        return f"sparse{x.shape}"
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return f"array{x.shape}"
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float):
        return x if np.isfinite(x) else str(x)
    if x is None or isinstance(x, (int, str, bool)):
        return x
    return str(x)


def dump(path, obj):
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(jsonable(obj), f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)
