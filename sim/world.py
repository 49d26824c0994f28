"""Executes operations on environments and records everything observable."""
import contextlib
import datetime as dt
import math
import struct
import hashlib
import numpy as np

from . import seams
from .envs import make_env, full_cfg, np_network
from .refmodel import RefNetwork, flatten_sim_state


def pack(x):
    """Canonical bytes of a recorded value (exact; NaNs unified)."""
    if x is None:
        return b"N"
    if isinstance(x, bool):
        return b"T" if x else b"F"
    if isinstance(x, int):
        return b"i" + str(x).encode()
    if isinstance(x, float):
        return b"f" + (b"nan" if x != x else struct.pack("<d", x))
    if isinstance(x, str):
        return b"s" + x.encode()
    if isinstance(x, np.ndarray):
        return b"a" + str(x.shape).encode() + b"".join(pack(float(v)) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return b"l" + b",".join(pack(v) for v in x)
    if isinstance(x, dict):
        return b"d" + b",".join(pack(str(k)) + b":" + pack(x[k]) for k in sorted(x, key=str))
    if isinstance(x, (dt.datetime, dt.timedelta)):
        return b"t" + repr(str(x)).encode()
    if isinstance(x, np.generic):
        return pack(x.item())
    return b"?" + repr(x).encode()


def digest(x):
    return hashlib.sha256(pack(x)).hexdigest()[:16]


def same(a, b):
    return pack(a) == pack(b)


def diff(a, b, path=""):
    """First difference between two recorded values, as text (or None)."""
    if same(a, b):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            d = diff(a.get(k), b.get(k), "%s.%s" % (path, k))
            if d:
                return d
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        k = [i for i in range(a.size) if not same(float(a.ravel()[i]), float(b.ravel()[i]))][0]
        return "%s[%d]: %r != %r" % (path, k, float(a.ravel()[k]), float(b.ravel()[k]))
    return "%s: %.200r != %.200r" % (path, a, b)


def flat_state(env):
    st = getattr(env.simulator, "state", None)
    if st is None:
        return None
    return {k: float(v) for k, v in flatten_sim_state(st).items()}


def vec(x):
    return None if x is None else np.array(x, dtype=float)


def snapshot(env):
    s = {
        "state": vec(getattr(env, "state", None)), "timestep": getattr(env, "timestep", None),
        "e_loss": _num(getattr(env, "e_loss", None)), "penalty": _num(getattr(env, "penalty", None)),
        "terminated": _bool(getattr(env, "terminated", None)), "sim": flat_state(env),
    }
    if hasattr(env, "date"):
        s["date"] = env.date
        s["year_count"] = env.year_count
    return s


def _num(x):
    return None if x is None else float(x)


def _bool(x):
    return None if x is None else bool(x)


class Slot:
    """One environment and what the harness knows about it."""

    def __init__(self, cfg, env=None, network=None):
        self.cfg = full_cfg(cfg)
        self.raw = cfg
        self.ref = RefNetwork(self.cfg["net"])
        self.lo, self.hi = self.ref.action_bounds()
        self.env = env if env is not None else make_env(cfg, network)
        self.agents = {}

    # -- actions ------------------------------------------------------------
    def action(self, fr):
        """Fractions in [0, 1] -> a valid action according to the network description."""
        n = len(self.lo)
        fr = [fr[k % len(fr)] if fr else 0.5 for k in range(n)]
        a = np.zeros(n)
        base = self.ref.base
        for k in range(n):
            lo, hi = self.lo[k], self.hi[k]
            l2 = lo if math.isfinite(lo) else min(-0.6 * base, hi - 0.6 * base) if math.isfinite(hi) else -0.6 * base
            h2 = hi if math.isfinite(hi) else max(0.6 * base, l2 + 0.6 * base)
            a[k] = l2 + fr[k] * (h2 - l2)
            a[k] = min(max(a[k], lo), hi)
        sp = self.env.action_space
        if sp.shape == a.shape:  # absorb the last rounding error only
            c = np.clip(a, sp.low, sp.high)
            a = np.where(np.abs(c - a) <= 1e-9 * (1 + np.abs(a)), c, a)
        return a

    def bad_action(self, kind, fr):
        a = self.action(fr)
        n = len(a)
        if kind == "nan" and n:
            a[n // 2] = np.nan
        elif kind == "high":
            k = [i for i in range(n) if math.isfinite(self.hi[i])]
            if not k:
                return np.zeros(n + 1)
            k = k[len(k) // 2]
            a[k] = self.hi[k] + 0.1 * abs(self.hi[k]) + 0.01
        elif kind == "low":
            k = [i for i in range(n) if math.isfinite(self.lo[i])]
            if not k:
                return np.zeros(n + 1)
            k = k[-1]
            a[k] = self.lo[k] - 0.1 * abs(self.lo[k]) - 0.01
        elif kind == "shape2":
            return a.reshape(1, -1)
        elif kind == "complex":
            return a.astype(complex)
        elif kind == "str":
            return "action"
        elif kind == "none":
            return None
        else:
            return np.concatenate((a, [0.0]))
        return a

    # -- agents -------------------------------------------------------------
    def agent(self, op):
        """The agent of this slot for the given parameters (kept between calls, unless fresh)."""
        from gym_anm import MPCAgentConstant, MPCAgentPerfect
        key = (op.get("agent", "constant"), op.get("N", 1), op.get("margin", 0.9), op.get("inst", 0))
        if key not in self.agents or op.get("fresh"):
            cls = MPCAgentPerfect if key[0] == "perfect" else MPCAgentConstant
            self.agents[key] = cls(self.env.simulator, self.env.action_space, self.cfg["gamma"],
                                   safety_margin=key[2], planning_steps=key[1])
        return self.agents[key]

    # -- calls --------------------------------------------------------------
    def do(self, op):
        """Run one operation; returns the record of everything observable."""
        env = self.env
        env._begin(op.get("ctl"))
        rec = {"op": op["op"], "exc": None, "obs": None, "reward": None, "term": None, "trunc": None, "info": None}
        self.last_raw = None
        self.last_action = None
        try:
            with seams.faults(op.get("fault"), env):
                if op["op"] == "reset":
                    opts = op.get("options")
                    if opts is not None:
                        opts = {"date_init": dt.datetime(*opts)}
                    kw = {}
                    if "seed" in op:
                        kw["seed"] = op["seed"]
                    if opts is not None:
                        kw["options"] = opts
                    self.last_raw = obs, info = env.reset(**kw)
                    rec["obs"], rec["info"] = vec(obs), dict(info)
                elif op["op"] == "step":
                    a = self.bad_action(op["bad"], op["a"]) if op.get("bad") else self.action(op["a"])
                    if op.get("f32") and not op.get("bad"):
                        a32 = a.astype(np.float32)
                        sp = env.action_space
                        if np.all(a32 >= sp.low) and np.all(a32 <= sp.high):
                            a = a32
                    self.last_action = a
                    rec["action"] = vec(a) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else repr(a)
                    if op.get("bad"):
                        import contextlib as _c, io
                        with _c.redirect_stderr(io.StringIO()):
                            out = env.step(a)
                    else:
                        out = env.step(a)
                    self.last_raw = out
                    obs, r, term, trunc, info = out
                    rec.update(obs=vec(obs), reward=float(r), term=bool(term), trunc=bool(trunc), info=dict(info))
                elif op["op"] == "setdate":
                    env.reset_date(dt.datetime(*op["options"]))
                elif op["op"] == "act":
                    rec["act"] = vec(self.agent(op).act(env))
                else:
                    raise ValueError(op["op"])
        except (Exception, KeyboardInterrupt) as e:
            rec["exc"] = type(e).__name__
            rec["exc_msg"] = str(e)[:300]
        rec["draws"] = [(k, v) for k, v in env.draws]
        rec["n_init"], rec["n_next"] = env.n_init, env.n_next
        rec["after"] = snapshot(env)
        return rec


COMPARE = ("exc", "obs", "reward", "term", "trunc", "info", "n_init", "n_next", "draws", "act", "after")


def visible(rec, keys=COMPARE):
    return {k: rec.get(k) for k in keys}


def clean(op):
    """True if nothing was injected into this operation that may make it fail."""
    f = op.get("fault") or {}
    c = op.get("ctl") or {}
    return not (op.get("bad") or "lin" in f or "qp" in f or "interrupt" in f or c.get("vars") or c.get("init"))
