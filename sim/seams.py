"""Seams between gym-anm and the nondeterministic / failing outside world.

Import this module BEFORE gym_anm: it puts pass-through wrappers in front of
the numerical libraries (linear solvers, QP/LP solvers), the wall clock and the
global random generators.  Each wrapper is controlled by `STATE`; with the
default STATE everything behaves exactly as shipped, except that a QP solver
left to tune itself from the wall clock reads the simulated "solver clock"
instead.  Nothing in /repo is modified.
"""
import contextlib
import copyreg
import datetime as _dt
import os
import random as _random
import sys
import threading
import time as _time
from collections import Counter

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
sys.dont_write_bytecode = True

import numpy as np
import numpy.linalg
import scipy.linalg
import scipy.sparse.linalg as _ssl

REPO = os.environ.get("GYM_ANM_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

real_time, real_perf = _time.time, _time.perf_counter
np_solve = numpy.linalg.solve  # for the reference model


class State:
    def __init__(self):
        self.clear()
        self.stats = Counter()

    def clear(self):
        self.linsolve = None      # callable(call_index) -> None | "nan" | "garbage" | "raise" | "inf"
        self.linsolve_calls = 0
        self.qp = None            # callable(call_index) -> None | "error" | "none"
        self.qp_calls = 0
        self.solver_clock = 100   # adaptive_rho_interval the wall clock would have produced
        self.clock_skew = 0.0     # added to the real clock (seconds)
        self.fired = Counter()


STATE = State()
_local = threading.local()


def fired(kind):
    STATE.fired[kind] += 1
    STATE.stats[kind] += 1


# -- linear solvers -----------------------------------------------------------
def _wrap_lin(orig, rhs=1):
    def linsolve(*a, **k):
        if STATE.linsolve is None or getattr(_local, "inside", False):
            return orig(*a, **k)
        kind = STATE.linsolve(STATE.linsolve_calls)
        STATE.linsolve_calls += 1
        if kind is None:
            return orig(*a, **k)
        fired("linsolve_" + kind)
        if kind == "raise":
            raise RuntimeError("injected: linear solver failure")
        _local.inside = True
        try:
            x = np.array(orig(*a, **k), dtype=float)
        except Exception:
            x = np.zeros(np.shape(a[rhs]))
        finally:
            _local.inside = False
        if kind == "nan":
            x[:] = np.nan
        elif kind == "inf":
            x[:] = np.inf
        elif kind == "garbage":      # finite but wrong
            x = x * -3.7 + 0.11
        elif kind == "onenan":
            if x.size:
                x[-1] = np.nan
        elif kind == "zero":
            x[:] = 0.0
        return x
    linsolve.__name__ = orig.__name__
    linsolve.__wrapped__ = orig
    return linsolve


_ssl.spsolve = _wrap_lin(_ssl.spsolve)
numpy.linalg.solve = _wrap_lin(numpy.linalg.solve)
scipy.linalg.solve = _wrap_lin(scipy.linalg.solve)

# -- QP / LP solvers ----------------------------------------------------------
import cvxpy as cp
import osqp as _osqp

_orig_solve = cp.Problem.solve


def _cp_solve(self, *a, **k):
    kind = None
    if STATE.qp is not None:
        kind = STATE.qp(STATE.qp_calls)
        STATE.qp_calls += 1
    if kind == "error":
        fired("qp_error")
        raise cp.error.SolverError("injected: solver failure")
    if kind == "none":  # the solver gives up without a solution
        fired("qp_none")
        for v in self.variables():
            v.save_value(None)
        self._status = cp.settings.SOLVER_ERROR
        return None
    if kind == "interrupt":
        fired("qp_interrupt")
        raise KeyboardInterrupt("injected")
    return _orig_solve(self, *a, **k)


cp.Problem.solve = _cp_solve

_orig_setup = _osqp.OSQP.setup


def _osqp_setup(self, *a, **k):
    # 0 (the default) means: choose the interval from the measured setup time.
    if not k.get("adaptive_rho_interval"):
        k["adaptive_rho_interval"] = int(STATE.solver_clock)
        STATE.stats["solver_clock_read"] += 1
    return _orig_setup(self, *a, **k)


_osqp.OSQP.setup = _osqp_setup

# -- wall clock ---------------------------------------------------------------
_skewed = {}
ORIGINAL = {n: getattr(_time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns",
                                                 "perf_counter_ns")}
for _n in ("time", "monotonic", "perf_counter"):
    def _mk(orig):
        def clock():
            return orig() + STATE.clock_skew
        return clock
    _skewed[_n] = getattr(_time, _n)
    setattr(_time, _n, _mk(_skewed[_n]))
for _n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
    def _mk(orig):
        def clock():
            return orig() + int(STATE.clock_skew * 1e9)
        return clock
    setattr(_time, _n, _mk(getattr(_time, _n)))

_real_datetime = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_Meta):
    """datetime.datetime whose now() reads the simulated clock."""

    def __new__(cls, *a, **k):
        return _real_datetime.__new__(_real_datetime, *a, **k)

    @classmethod
    def now(cls, tz=None):
        return _real_datetime.now(tz) + _dt.timedelta(seconds=STATE.clock_skew)

    @classmethod
    def utcnow(cls):
        return _real_datetime.utcnow() + _dt.timedelta(seconds=STATE.clock_skew)

    today = now


_dt.datetime = SimDatetime


def _date(s):
    return _real_datetime.fromisoformat(s)


copyreg.pickle(_real_datetime, lambda d: (_date, (d.isoformat(),)))

# -- the code under test ------------------------------------------------------
import logging
logging.disable(logging.WARNING)
import warnings
warnings.simplefilter("ignore")
import gymnasium
gymnasium.logger.min_level = 50
import gym_anm  # noqa: E402  (imported behind the seams)

PKG = os.path.dirname(os.path.abspath(gym_anm.__file__)) + os.sep


def perturb_global_rng(k):
    np.random.seed(k % (2 ** 32))
    _random.seed(k)
    fired("global_rng")


class InterruptAt:
    """Context manager: KeyboardInterrupt at the k-th executed line of gym_anm."""

    def __init__(self, k):
        self.k, self.n, self.done = k, 0, False

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if event == "line" or event == "call":
            if event == "line":
                self.n += 1
                if self.n >= self.k and not self.done:
                    self.done = True
                    fired("interrupt")
                    raise KeyboardInterrupt("injected")
            return self._trace
        return self._trace

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)


def make_schedule(kind, calls):
    """A fault function firing `kind` at the given call indices ('all' or list)."""
    if calls == "all":
        return lambda i: kind
    s = set(calls)
    return lambda i: kind if i in s else None


@contextlib.contextmanager
def faults(f, env=None):
    """Arm the faults of one operation, f = {"lin": [kind, calls], "qp": [kind, calls],
    "clock": skew, "solver_clock": n, "rng": k, "interrupt": line}."""
    f = f or {}
    STATE.linsolve_calls = STATE.qp_calls = 0
    if "lin" in f:
        STATE.linsolve = make_schedule(*f["lin"])
    if "lin_draws" in f:  # the solver breaks down during the first m initial draws
        kind, m = f["lin_draws"]
        STATE.linsolve = lambda i: kind if env.n_init <= m else None
    if "qp" in f:
        STATE.qp = make_schedule(*f["qp"])
    if "clock" in f:
        STATE.clock_skew = f["clock"]
        fired("clock_jump")
    if "solver_clock" in f:
        STATE.solver_clock = f["solver_clock"]
        fired("solver_clock")
    if "rng" in f:
        perturb_global_rng(f["rng"])
    intr = InterruptAt(f["interrupt"]) if "interrupt" in f else contextlib.nullcontext()
    try:
        with intr:
            yield
    finally:
        STATE.linsolve = STATE.qp = None
