"""Environments driven by the simulator (subclasses of the real classes, as any user writes them)."""
import datetime as dt
import numpy as np

from . import seams  # noqa: F401  (must come first)
from gym_anm import ANMEnv
from gym_anm.envs.anm6_env.anm6 import ANM6
from gym_anm.envs.anm6_env.anm6_easy import ANM6Easy
from .refmodel import RefNetwork, INF


class UserError(Exception):
    """Raised by the user's own sampling functions."""


class Runaway(Exception):
    """A reset that does not stop drawing."""


# Observation functions a user may supply (plain functions of the state vector).
def _obs_reverse(s):
    return np.array(s[::-1])


def _obs_ratio(s):
    return np.concatenate((s[:2] * 2.0, [np.sum(s)]))


def _obs_first(s):
    return s[:1].copy()


def _obs_ints(s):
    return np.array([1, 2, 3 + (s[0] > 0)], dtype=np.int64)


OBS_FUNCS = {"reverse": _obs_reverse, "ratio": _obs_ratio, "first": _obs_first, "ints": _obs_ints}


def np_network(net):
    """The network dictionary as the library expects it (fresh arrays)."""
    out = {"baseMVA": net["baseMVA"]}
    for k in ("bus", "device", "branch"):
        rows = net[k]
        none = any(v is None for r in rows for v in r)
        out[k] = np.array(rows, dtype=object if none else float)
        if none:
            out[k] = np.array([[None if v is None else v for v in r] for r in rows], dtype=object)
    return out


class _Scripted:
    """Control of the sampling functions by the simulator. `ctl` holds the script of the current call."""

    def _begin(self, ctl):
        self.ctl = dict(ctl or {})
        self.n_init = self.n_next = 0
        self.draws = []

    def _pre_next(self):
        self.n_next += 1
        v = self.ctl.get("vars")
        if v == "exc":
            seams.fired("user_exception")
            raise UserError("injected")
        n = self._n_vars()
        if v == "short":
            seams.fired("wrong_size")
            return np.zeros(n - 1) if n else np.zeros(1)
        if v == "long":
            seams.fired("wrong_size")
            return np.zeros(n + 2)
        return None

    def _pre_init(self):
        self.n_init += 1
        if self.n_init > 300:
            raise Runaway("%d initial draws in one reset" % self.n_init)
        v = self.ctl.get("init")
        if v and self.n_init == v[1]:
            seams.fired("bad_init_" + v[0])
            if v[0] == "exc":
                raise UserError("injected")
            return np.zeros(max(0, self._n_state() + (1 if v[0] == "long" else -1)))
        return None

    def _log(self, kind, x):
        self.last_vars = x
        self.draws.append((kind, np.array(x, dtype=float)))
        return x


class GridEnv(_Scripted, ANMEnv):
    def __init__(self, cfg, network=None, seed=None):
        self.cfg = cfg
        self._begin(None)
        net = cfg["net"]
        base = self.base = float(net["baseMVA"])
        ref = RefNetwork(net)
        fin = lambda v, d: v if np.isfinite(v) else d
        self.lo_load = [fin(ref.dev[i].p_min, -0.25) * base for i in ref.load_ids]
        self.lim_gen = [fin(ref.dev[i].p_max, 0.5) * base for i in ref.gen_ids]
        self.inf_load = [k for k, i in enumerate(ref.load_ids) if ref.dev[i].p_min == -INF
                         and ref.dev[i].bus != ref.slack_bus]
        self.kinds = [ref.dev[i].type for i in ref.dev_ids]
        self.lims = [(fin(d.p_min, -0.4) * base, fin(d.p_max, 0.4) * base, fin(d.q_min, -0.4) * base,
                      fin(d.q_max, 0.4) * base) for d in (ref.dev[i] for i in ref.dev_ids)]
        self.qps = [ref.dev[i].qp for i in ref.dev_ids]
        self.socs = [(ref.dev[i].soc_min * base, ref.dev[i].soc_max * base) for i in ref.des_ids]
        self.load_pos = [ref.dev_ids.index(i) for i in ref.load_ids]
        self.gen_pos = [ref.dev_ids.index(i) for i in ref.gen_ids]
        K = cfg["K"]
        self.kk = K
        self._sizes = (ref.n_state(K), ref.n_vars(K))
        obs = cfg["obs"]
        self._user_bounds = None
        if isinstance(obs, dict):
            if obs.get("bounds"):
                n = len(OBS_FUNCS[obs["callable"]](np.zeros(self._sizes[0])))
                self._user_bounds = n
            obs = OBS_FUNCS[obs["callable"]]
        elif isinstance(obs, list):
            obs = [tuple([o[0], o[1] if isinstance(o[1], str) else [tuple(x) if isinstance(x, list) else x for x in o[1]]]
                         + list(o[2:])) for o in obs]
        self.obs_spec = obs
        ab = cfg["aux_bounds"]
        self.given_network = np_network(net) if network is None else network
        self.given_aux_bounds = None if ab is None else np.array(ab, dtype=float)
        clip = cfg["clip"]
        super().__init__(self.given_network, obs, K, cfg["dt"], cfg["gamma"], cfg["lamb"], self.given_aux_bounds,
                         None if clip is None else tuple(clip), seed)

    def _n_state(self):
        return self._sizes[0]

    def _n_vars(self):
        return self._sizes[1]

    def observation_bounds(self):
        if self._user_bounds is not None:
            from gymnasium import spaces
            return spaces.Box(-1e9 * np.ones(self._user_bounds), 1e9 * np.ones(self._user_bounds), dtype=np.float64)
        return super().observation_bounds()

    def init_state(self):
        x = self._pre_init()
        if x is not None:
            return x
        rng, dyn = self.np_random, self.cfg["dyn"]
        P, Q, soc, pot = [], [], [], []
        gi = 0
        for k, (kind, lim, qp) in enumerate(zip(self.kinds, self.lims, self.qps)):
            if kind == -1:
                p = lim[0] * dyn["level"] * rng.uniform(0.1, 1.0)
                P.append(p)
                Q.append(p * qp)
            elif kind == 0:
                P.append(0.0)
                Q.append(0.0)
            else:
                P.append(rng.uniform(lim[0], lim[1]))
                Q.append(rng.uniform(lim[2], lim[3]))
                if kind in (1, 2):
                    pot.append(self.lim_gen[gi] * dyn["pot"] * rng.uniform(0.0, 1.0))
                    gi += 1
        for lo, hi in self.socs:
            soc.append(lo + (hi - lo) * rng.uniform(-0.1, 1.1) if rng.uniform() < 0.3 else rng.uniform(lo, hi))
        aux = [rng.uniform(-60, 60) for _ in range(self.kk)]
        if self.n_init <= self.ctl.get("bad", 0):
            seams.fired("bad_init_draw")
            for j in self.inf_load:
                P[self.load_pos[j]] = -1e4 * self.base
        return self._log("init", np.array(P + Q + soc + pot + aux, dtype=float))

    def next_vars(self, s_t):
        self.seen = np.array(s_t)
        x = self._pre_next()
        if x is not None:
            return x
        rng, dyn = self.np_random, self.cfg["dyn"]
        fb = dyn["fb"]
        v = []
        for k, lo in zip(self.load_pos, self.lo_load):
            v.append((1 - fb) * lo * dyn["level"] * rng.uniform(0.0, 1.1) + fb * s_t[k])
        for lim in self.lim_gen:
            v.append(lim * dyn["pot"] * rng.uniform(-0.05, 1.05))
        for k in range(self.kk):
            v.append(fb * s_t[k - self.kk] + rng.uniform(-60, 60))
        s = self.ctl.get("surge")
        if s:
            seams.fired("demand_surge")
            for j in self.inf_load:
                v[j] = -float(s) * self.base
        return self._log("next", np.array(v, dtype=float))


class SimEasy(_Scripted, ANM6Easy):
    def __init__(self, cfg=None, **kw):
        self.cfg = cfg or {"kind": "easy"}
        self._begin(None)
        super().__init__()

    def _n_state(self):
        return 18

    def _n_vars(self):
        return 6

    def init_state(self):
        x = self._pre_init()
        return x if x is not None else self._log("init", super().init_state())

    def next_vars(self, s_t):
        self.seen = np.array(s_t)
        x = self._pre_next()
        return x if x is not None else self._log("next", super().next_vars(s_t))


class SimANM6(_Scripted, ANM6):
    """A user task on the built-in six-bus network with its own step length and random exogenous values."""

    def __init__(self, cfg, **kw):
        self.cfg = cfg
        self._begin(None)
        clip = cfg.get("clip") or (None, None)
        super().__init__("state", 1, cfg["dt"], cfg.get("gamma", 0.99), cfg.get("lamb", 100),
                         costs_clipping=tuple(clip))

    def _n_state(self):
        return 18

    def _n_vars(self):
        return 6

    def init_state(self):
        x = self._pre_init()
        if x is not None:
            return x
        r = self.np_random
        s = np.zeros(18)
        for d, lo in ((1, -10), (3, -20), (5, -15)):
            s[d] = r.uniform(lo, 0)
            s[7 + d] = 0.2 * s[d]
        s[2], s[4] = r.uniform(0, 30), r.uniform(0, 50)
        s[14] = r.uniform(0, 100)
        s[15], s[16] = s[2], s[4]
        return self._log("init", s)

    def next_vars(self, s_t):
        self.seen = np.array(s_t)
        x = self._pre_next()
        if x is not None:
            return x
        r = self.np_random
        v = np.array([r.uniform(-10, 0), r.uniform(-30, 0), r.uniform(-30, 0), r.uniform(0, 30), r.uniform(0, 50),
                      s_t[-1] + 1])
        return self._log("next", v)


def easy_net():
    """The six-bus description, copied by value (checked against the package by the oracles' own physics)."""
    from gym_anm.envs.anm6_env.network import network
    return {"baseMVA": float(network["baseMVA"]),
            **{k: [[None if v is None else float(v) for v in row] for row in network[k].tolist()]
               for k in ("bus", "device", "branch")}}


_EASY_NET = easy_net()  # taken before any environment exists


def make_env(cfg, network=None):
    k = cfg["kind"]
    if k == "grid":
        return GridEnv(cfg, network)
    if k == "easy":
        return SimEasy(cfg)
    return SimANM6(cfg)


def full_cfg(cfg):
    """cfg with the fields of the built-in tasks filled in."""
    k = cfg["kind"]
    if k == "grid":
        return cfg
    out = {"net": _EASY_NET, "obs": "state", "K": 1, "aux_bounds": None}
    if k == "easy":
        out.update(dt=0.25, gamma=0.995, lamb=100, clip=[1, 100], aux_bounds=[[0, 95]])
    else:
        out.update(gamma=0.99, lamb=100, clip=[None, None])
    out.update({a: b for a, b in cfg.items() if b is not None})
    return out
