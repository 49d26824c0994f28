"""C24: environments behind Gymnasium (make, vector environments) and restored from checkpoints.

The wrappers, vector environments and pickling are the real ones; the reference
is the same class of environment used directly, in a process of its own.
"""
import copy
import pickle
import warnings

import numpy as np

from . import seams, history
from .checks import MonitorCheck, Outcome, check, compare, isolated, run_ops
from .envs import make_env
from .world import Slot, digest, vec, visible


def quiet():
    import gymnasium as gym
    gym.logger.min_level = 50
    warnings.simplefilter("ignore")
    return gym


class Front(Slot):
    """A slot whose environment is used through a wrapper."""

    def __init__(self, cfg, front):
        super().__init__(cfg, env=front.unwrapped)
        self.inner, self.front, self.api = front.unwrapped, front, []

    class Calls:
        """Calls go to the wrapper, everything else to the environment itself."""

        def __init__(self, front):
            self.__dict__["front"] = front

        def __getattr__(self, k):
            if k in ("reset", "step", "action_space", "observation_space"):
                return getattr(self.__dict__["front"], k)
            return getattr(self.__dict__["front"].unwrapped, k)

        def __setattr__(self, k, v):
            setattr(self.__dict__["front"].unwrapped, k, v)

    def do(self, op):
        self.env = self.Calls(self.front)
        try:
            rec = super().do(op)
        finally:
            self.env = self.inner
        if rec["exc"] is None and self.last_raw is not None:
            self.interface(op, self.last_raw)
        return rec

    def interface(self, op, raw):
        """What Gymnasium promises about returned values."""
        if not isinstance(raw, tuple) or len(raw) != (2 if op["op"] == "reset" else 5):
            self.api.append("%s returned %.100r" % (op["op"], raw))
            return
        obs, info = raw[0], raw[-1]
        if not isinstance(obs, np.ndarray):
            self.api.append("%s returned an observation of type %s" % (op["op"], type(obs).__name__))
        elif not self.front.observation_space.contains(np.asarray(obs, dtype=self.front.observation_space.dtype)) and \
                obs.shape != self.front.observation_space.shape:
            self.api.append("%s returned an observation of shape %s, the space has %s" %
                            (op["op"], obs.shape, self.front.observation_space.shape))
        if not isinstance(info, dict):
            self.api.append("%s returned info of type %s" % (op["op"], type(info).__name__))
        if op["op"] == "step":
            if not isinstance(raw[2], (bool, np.bool_)) or not isinstance(raw[3], (bool, np.bool_)):
                self.api.append("step returned flags of types %s, %s" % (type(raw[2]).__name__, type(raw[3]).__name__))
            if raw[3]:
                self.api.append("step reported a truncated episode")
            if not np.isscalar(raw[1]) and np.shape(raw[1]) != ():
                self.api.append("step returned a reward of shape %s" % (np.shape(raw[1]),))


def nothing(ctl):
    pass


def plain(env):
    """An environment of the package itself (not of a scripted subclass), as `gymnasium.make` gives it."""
    for k, v in (("_begin", nothing), ("draws", []), ("n_init", 0), ("n_next", 0)):
        setattr(env.unwrapped, k, v)
    return env


class Entry:
    """An entry point that can be pickled (it becomes part of the environment's specification)."""

    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, **kw):
        return make_env(self.cfg)


def registered(cfg):
    """gymnasium.make for a generated configuration."""
    gym = quiet()
    if cfg["kind"] == "easy" and cfg.get("id"):
        return plain(gym.make("gym_anm:ANM6Easy-v0"))
    name = "SimGym-v%d" % len([k for k in gym.registry if k.startswith("SimGym-")])
    gym.register(id=name, entry_point=Entry(cfg))
    return gym.make(name)


def direct(cfg):
    if cfg["kind"] == "easy" and cfg.get("id"):
        from gym_anm.envs import ANM6Easy
        return plain(ANM6Easy())
    return make_env(cfg)


@check("C24", 350, 14000,
       real="gym_anm, Gymnasium's registry, wrappers and synchronous vector environment, pickle and copy",
       stub="process crashes (a checkpoint is restored in a process that never ran the environment)",
       assumptions=["the environment used directly is the reference (decided by C01-C12)"])
class C24(MonitorCheck):
    """make, vector environments, checkpoints: the same episodes."""
    allowed = ("bad", "vars", "surge", "lin", "qp", "initbad")
    modes = (None, "storage", "small", "gens", "loads")
    kinds = ("grid", "grid", "easy", "anm6")
    obs_kinds = ("state", "list", "list", "callable")
    gammas = (0.9, 0.995, 0.5)
    lists = (("ops",), ("steps",))

    def gen(self, seed):
        rng = self.rng(seed)
        mode = rng.choice(["make", "vec", "vec", "checkpoint", "checkpoint"])
        if rng.random() < 0.03:
            n = rng.choice([300, 500, 800])
            return {"prop": self.prop, "seed": seed, "mode": "long", "cfg": {"kind": "easy", "id": True}, "n": n,
                    "first": rng.randrange(10 ** 6), "a": [history.fractions(rng) for _ in range(8)]}
        kind = rng.choice(self.kinds)
        enabled = history.swarm(rng, self.allowed, 0.4)
        cfg = self.config(rng, kind, enabled)
        if isinstance(cfg.get("obs"), dict):
            cfg["obs"]["bounds"] = True         # (otherwise there is no space before the first reset)
        if mode == "make" and kind == "easy" and rng.random() < 0.7:
            cfg["id"] = True
            enabled -= {"vars", "initbad", "surge"}
        plan = {"prop": self.prop, "seed": seed, "mode": mode, "cfg": cfg}
        if mode != "vec":
            plan["ops"] = history.history(rng, cfg, rng.randint(4, 12), enabled, reset_rate=0.12)
        if mode == "checkpoint":
            n = len(plan["ops"])
            plan["at"] = sorted(rng.sample(range(0, n), min(n, rng.choice([1, 1, 2, 3]))))
            plan["how"] = [rng.choice(["pickle", "pickle", "crash", "crash", "deepcopy"]) for _ in plan["at"]]
            plan["protocol"] = rng.choice([2, 4, 5])
            plan["wrapped"] = rng.random() < 0.3
            # what the original of a deep copy goes on to do while the copy takes over
            plan["noise"] = history.history(rng, cfg, rng.randint(1, 3), enabled - {"initbad"}, seeded_first=False, reset_rate=0.2)
            if rng.random() < 0.5:
                del plan["noise"][0]
        if mode == "vec":
            n = rng.choice([2, 2, 3])
            plan["n"] = n
            plan["copy"] = rng.random() < 0.6
            plan["wrapped"] = rng.random() < 0.4
            steps = []
            for k in range(rng.randint(3, 9)):
                if k == 0 or rng.random() < 0.1:
                    s = {"op": "reset", "seed": rng.randrange(10 ** 6) if k == 0 or rng.random() < 0.6 else None}
                    if s["seed"] is not None and rng.random() < 0.4:
                        s["seed"] = [rng.randrange(10 ** 6) for _ in range(n)]
                    if kind != "grid" and rng.random() < 0.3:
                        s["options"] = history.date(rng)
                else:
                    s = {"op": "step", "each": []}
                    for _ in range(n):
                        o = history.step_op(rng, enabled & {"surge"}, 0.2)
                        o.pop("f32", None)
                        s["each"].append(o)
                    if rng.random() < 0.25:     # one of the networks collapses
                        s["each"][rng.randrange(n)]["ctl"] = {"surge": 1e4} if kind == "grid" else {}
                        s["dead"] = rng.randrange(n)
                steps.append(s)
            plan["steps"] = steps
        return plan

    def shrink(self, plan):
        if plan["mode"] == "long":
            if plan["n"] > 1:
                yield dict(plan, n=plan["n"] // 2)
                yield dict(plan, n=plan["n"] - 1)
            return
        if plan["mode"] == "checkpoint":
            if len(plan["at"]) > 1:
                for k in range(len(plan["at"])):
                    yield dict(plan, at=plan["at"][:k] + plan["at"][k + 1:], how=plan["how"][:k] + plan["how"][k + 1:])
            for k in range(len(plan["ops"]) - 1, 0, -1):
                at = [a - (a >= k) for a in plan["at"]]
                yield dict(plan, ops=plan["ops"][:k] + plan["ops"][k + 1:], at=[min(a, len(plan["ops"]) - 2) for a in at])
            return
        key = "ops" if plan["mode"] == "make" else "steps"
        for k in range(len(plan[key]) - 1, 0, -1):
            yield dict(plan, **{key: plan[key][:k] + plan[key][k + 1:]})

    def run(self, plan):
        out = Outcome()
        getattr(self, plan["mode"])(plan, out)
        return out

    # -- gymnasium.make ---------------------------------------------------
    def make(self, plan, out):
        cfg = plan["cfg"]

        def alone():
            o = Outcome()
            return run_ops(Slot(cfg, env=direct(cfg)), plan["ops"], o), o.log, o.sim_hours, o.stats
        want, log, hours, stats = isolated(alone)
        out.log += log
        out.sim_hours += hours
        out.stats.update(stats)
        front = registered(cfg)
        slot = Front(cfg, front)
        got = run_ops(slot, plan["ops"])
        out.stats["made"] += 1
        compare(out, "wrapped", plan["ops"], want, got, "through gymnasium.make")
        for t in slot.api[:1]:
            out.bad("interface", t)
        if cfg.get("id") and front.spec.max_episode_steps is not None:
            out.bad("interface", "episodes are cut after %r steps" % front.spec.max_episode_steps)
        out.states.add(("make", cfg["kind"], tuple(r["exc"] for r in got if r), any(r and r["term"] for r in got)))

    # -- an episode goes on as long as the network does ------------------
    def long(self, plan, out):
        front = registered(plan["cfg"])
        slot = Front(plan["cfg"], front)
        slot.do({"op": "reset", "seed": plan["first"]})
        for k in range(plan["n"]):
            rec = slot.do({"op": "step", "a": plan["a"][k % len(plan["a"])]})
            out.log.append(digest(visible(rec)))
            out.stats["op_step"] += 1
            out.sim_hours += 0.25
            if slot.api or rec["exc"]:
                out.bad("interface", "step %d: %s" % (k + 1, slot.api[0] if slot.api else rec["exc_msg"]))
                break
            if rec["term"]:
                rec = slot.do({"op": "reset"})
        out.states.add(("long", plan["n"]))

    # -- checkpoints ------------------------------------------------------
    def checkpoint(self, plan, out):
        cfg, ops = plan["cfg"], plan["ops"]
        new = (lambda: registered(cfg)) if plan["wrapped"] else (lambda: direct(cfg))
        slot_of = (lambda e: Front(cfg, e)) if plan["wrapped"] else (lambda e: Slot(cfg, env=e))

        def alone():
            o = Outcome()
            return run_ops(slot_of(new()), ops, o), o.log, o.sim_hours, o.stats
        want, log, hours, stats = isolated(alone)
        out.log += log
        out.sim_hours += hours
        out.stats.update(stats)
        got, lo, data = [], 0, None
        cuts = [(min(a, len(ops)), h) for a, h in zip(plan["at"], plan["how"])] + [(len(ops), "end")]
        live = None
        for at, how in cuts:
            def part():
                """Runs ops[lo:at] on the environment restored from the last checkpoint."""
                try:
                    env = live if live is not None else new() if data is None else pickle.loads(data)
                except Exception as e:
                    if data is None:
                        raise
                    return [], None, "%s: %s" % (type(e).__name__, e)
                recs = run_ops(slot_of(env), ops[lo:at])
                if how == "end":
                    return recs, None, None
                if how == "deepcopy":
                    try:
                        c = copy.deepcopy(env)
                    except Exception as e:
                        return recs, None, "%s: %s" % (type(e).__name__, e)
                    run_ops(slot_of(env), plan["noise"])
                    return recs, None, c
                try:
                    return recs, pickle.dumps(env, protocol=plan["protocol"]), None
                except Exception as e:
                    return recs, None, "%s: %s" % (type(e).__name__, e)
            if how in ("crash", "pickle") and live is None:
                # a crash: the next part runs in a process that never saw this environment
                recs, data, live = isolated(lambda: part()) if how == "crash" else part()
                if data is not None and how == "pickle":
                    try:
                        live = pickle.loads(data)
                    except Exception as e:
                        live = "%s: %s" % (type(e).__name__, e)
            else:
                recs, d2, live = part()
                if d2 is not None:
                    data, live = d2, None
            if isinstance(live, str):
                out.bad("restored", "%s after %d calls failed with %s" % (how, at, live))
                return
            got += recs
            if recs and recs[-1] is not None and recs[-1]["n_init"] >= 100:
                break
            if how != "end":
                out.stats["restored_" + how] += 1
            lo = at
        want = want[:len(got)] if len(got) < len(want) and got and got[-1] and got[-1]["n_init"] >= 100 else want
        compare(out, "restored", ops, want, got, "checkpoints %s" % list(zip(plan["at"], plan["how"])))
        out.states.add(("checkpoint", tuple(plan["how"]), plan["wrapped"], cfg["kind"], len(got)))

    # -- vector environments ----------------------------------------------
    def vec(self, plan, out):
        gym = quiet()
        cfg, n, steps = plan["cfg"], plan["n"], plan["steps"]

        def alone(i):
            """Sub-environment i on its own, with the automatic resets of Gymnasium 1.0."""
            slot, recs, dead = Slot(cfg, env=direct(cfg)), [], False
            o = Outcome()
            for s in steps:
                if s["op"] == "reset":
                    op = {"op": "reset"}
                    if s["seed"] is not None:
                        op["seed"] = s["seed"][i] if isinstance(s["seed"], list) else s["seed"] + i
                    if s.get("options"):
                        op["options"] = s["options"]
                elif dead:
                    op = {"op": "reset"}
                else:
                    op = dict(s["each"][i])
                    if s.get("dead") == i:
                        op["fault"] = {"lin": ["nan", "all"]}
                r = run_ops(slot, [op], o)[0]
                recs.append(r)
                if r["exc"] is not None:
                    break
                dead = bool(r["term"]) if op["op"] == "step" else False
            return recs, o.log, o.sim_hours, o.stats
        want = []
        for i in range(n):
            w, log, hours, stats = isolated(lambda: alone(i))
            want.append(w)
            out.log += log
            out.sim_hours += hours
            out.stats.update(stats)
        length = min(len(w) for w in want)
        if any(w[-1]["exc"] is not None for w in want):     # a network without live initial states
            length -= 1
        make = (lambda: registered(cfg)) if plan["wrapped"] else (lambda: direct(cfg))
        v = gym.vector.SyncVectorEnv([make] * n, copy=plan["copy"])
        envs = [e.unwrapped for e in v.envs]
        slots = [Slot(cfg, env=e) for e in envs]
        dead = [False] * n
        kept = []
        for k, s in enumerate(steps[:length]):
            for i, e in enumerate(envs):
                e._begin(s["each"][i].get("ctl") if s["op"] == "step" and not dead[i] else None)
            if s["op"] == "reset":
                import datetime as dt
                o = {"date_init": dt.datetime(*s["options"])} if s.get("options") else None
                obs, info = v.reset(seed=s["seed"], **({"options": o} if o else {}))
                rew, term, trunc = np.zeros(n), np.zeros(n, bool), np.zeros(n, bool)
            else:
                acts = np.stack([sl.action(s["each"][i]["a"]) for i, sl in enumerate(slots)])
                # the linear solver of one of them breaks down
                with Broken(envs[s["dead"]] if "dead" in s and not dead[s["dead"]] else None):
                    obs, rew, term, trunc, info = v.step(acts)
            if plan["copy"]:
                kept.append((k, obs, np.array(obs)))
            out.stats["vector_calls"] += 1
            for i in range(n):
                w = want[i][k]
                if not np.array_equal(np.asarray(obs[i], dtype=float), np.asarray(w["obs"], dtype=float), equal_nan=True):
                    out.bad("vector", "call %d, environment %d of %d: observation %.200r instead of %.200r" % (k, i, n, obs[i], w["obs"]))
                    return
                r = 0.0 if w["op"] == "reset" else w["reward"]
                if float(rew[i]) != r or bool(term[i]) != bool(w["term"]) or bool(trunc[i]):
                    out.bad("vector", "call %d, environment %d of %d: (reward, terminated, truncated) = %r instead of %r" %
                            (k, i, n, (float(rew[i]), bool(term[i]), bool(trunc[i])), (r, bool(w["term"]), False)))
                    return
                for key in ("state", "timestep", "date", "year_count"):
                    a = getattr(envs[i], key, None)
                    b = w["after"].get(key)
                    if (vec(a) if key == "state" else a) is None and b is None:
                        continue
                    if not (np.array_equal(vec(a), b, equal_nan=True) if key == "state" else a == b):
                        out.bad("vector", "call %d, environment %d of %d: %s is %.100r instead of %.100r" % (k, i, n, key, a, b))
                        return
                if dead[i] and s["op"] == "step":
                    out.stats["autoresets"] += 1
                dead[i] = bool(term[i])
        for k, obs, was in kept:
            if not np.array_equal(obs, was, equal_nan=True):
                out.bad("vector", "the observations returned by call %d changed later" % k)
                return
        out.states.add(("vec", n, plan["copy"], plan["wrapped"], cfg["kind"], length))


class Broken:
    """While active, the linear solvers return NaN to the power flow of `env` (and to no other)."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        if self.env is None:
            return
        step = self.env.step
        self.old = self.env.__dict__.get("step")

        def broken(a):
            with seams.faults({"lin": ["nan", "all"]}, self.env):
                return step(a)
        self.env.step = broken

    def __exit__(self, *a):
        if self.env is not None:
            del self.env.step
