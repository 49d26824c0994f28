"""The simulated checks: per property a plan generator and a plan runner.

A plan is JSON: one seed is one plan, and running a plan is a pure function of
the plan and of the code under test.
"""
import copy
import os
import pickle
import random
from collections import Counter

from . import seams
from . import netgen, history
from .world import Slot, visible, diff, same, digest, pack, snapshot
from .oracles import Monitor


class Outcome:
    def __init__(self):
        self.violations = []   # (kind, detail)
        self.stats = Counter()
        self.states = set()
        self.log = []          # digests of every record (determinism tests)
        self.sim_hours = 0.0
        self.extra = {}

    def bad(self, kind, detail):
        self.violations.append((kind, detail))


def run_ops(slot, ops, out=None, monitor=None, on_rec=None, give_up=True):
    recs = []
    for op in ops:
        if op.get("if_term") and not getattr(slot.env, "terminated", False):
            recs.append(None)
            continue
        rec = slot.do(op)
        recs.append(rec)
        if out is not None:
            out.log.append(digest(visible(rec)))
            out.stats["op_" + op["op"]] += 1
            if rec["term"]:
                out.stats["collapsed_steps"] += 1
            if rec["exc"]:
                out.stats["raised_" + rec["exc"]] += 1
            if op["op"] == "step" and rec["exc"] is None:
                out.sim_hours += slot.cfg["dt"]
        if monitor is not None:
            monitor.see(op, rec)
        if on_rec is not None:
            on_rec(op, rec)
        if give_up and rec["n_init"] >= 100:  # a hopeless (hence slow) network: one such reset is enough
            break
    return recs


class HarnessError(Exception):
    pass


def isolated(func):
    """The result of func() computed in a forked process: nothing it does is seen here, nor the reverse later on."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = (True, func())
            except BaseException as e:
                from .run import classify
                res = (False, classify(e))
            try:
                data = pickle.dumps(res)
            except BaseException as e:
                data = pickle.dumps((False, (None, "cannot pickle: %r" % e)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("an isolated run ended without a result")
    ok, res = pickle.loads(data)
    if not ok:
        if res[0] is None:
            raise HarnessError(res[1])
        raise LibraryError(res)
    return res


class LibraryError(Exception):
    """The library failed inside an isolated run; args[0] = (kind, detail)."""


CHECKS = {}


def chunks(n):
    """Index ranges to remove, large first."""
    size = n
    while size >= 1:
        for lo in range(0, n, size):
            if (lo, min(n, lo + size)) != (0, n) or n == 1:
                yield lo, min(n, lo + size)
        size //= 2


def simpler(op):
    for k in ("fault", "ctl", "f32", "options", "bad"):
        if k in op:
            yield {a: b for a, b in op.items() if a != k}
        if isinstance(op.get(k), dict) and len(op[k]) > 1:
            for q in op[k]:
                yield dict(op, **{k: {a: b for a, b in op[k].items() if a != q}})
    if op.get("a") and op["a"] != [0.5]:
        yield dict(op, a=[0.5])


def simpler_cfg(cfg):
    if cfg.get("kind") != "grid":
        return
    if cfg.get("obs") != "state":
        yield dict(cfg, obs="state")
    if cfg.get("clip"):
        yield dict(cfg, clip=None)
    if cfg.get("aux_bounds") is not None:
        yield dict(cfg, aux_bounds=None)
    net = cfg["net"]
    for i, d in enumerate(net["device"]):
        if d[2] != 0 and cfg.get("obs") == "state":
            yield dict(cfg, net=dict(net, device=net["device"][:i] + net["device"][i + 1:]))


def check(prop, quick, thorough, **meta):
    def deco(cls):
        cls.prop, cls.n_quick, cls.n_thorough, cls.meta = prop, quick, thorough, meta
        CHECKS[prop] = cls()
        return cls
    return deco


class Base:
    def rng(self, seed):
        return random.Random("%s/%d" % (self.prop, seed))

    def aggregate(self, extras):
        """Checks over all runs of a search: [(kind, detail)]."""
        return []

    # -- minimisation: plans with something removed ----------------------
    lists = (("ops", "noise", "scribble"), ("tail",))

    def shrink(self, plan):
        for group in self.lists:
            names = [g for g in group if plan.get(g)]
            if names:
                n = len(plan[names[0]])
                keep = 1 if names[0] == "tail" else 0  # the tail starts with the reset in question
                for lo, hi in chunks(n):
                    if lo < keep:
                        continue
                    q = dict(plan)
                    for g in names:
                        q[g] = plan[g][:lo] + plan[g][hi:]
                    yield q
                for i, op in enumerate(plan[names[0]]):
                    for op2 in simpler(op):
                        yield dict(plan, **{names[0]: plan[names[0]][:i] + [op2] + plan[names[0]][i + 1:]})
        if isinstance(plan.get("cfg"), dict):
            for c in simpler_cfg(plan["cfg"]):
                yield dict(plan, cfg=c)


class MonitorCheck(Base):
    """One environment, one history, invariants judged on every record."""
    allowed = ()
    n_ops = (6, 14)
    kinds = ("grid",) * 7 + ("easy", "anm6")
    modes = (None, None, None, "loads", "small")
    gammas = (0.9, 0.995, 0.0, 0.5)
    surge = 0.5
    obs_kinds = ("state", "state", "list", "list", "callable")
    reset_rate = 0.1

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        enabled = history.swarm(rng, self.allowed)
        if rng.random() < 0.25:
            enabled = set()
        cfg = self.config(rng, kind, enabled)
        return {"prop": self.prop, "seed": seed, "cfg": cfg,
                "ops": self.history(rng, cfg, enabled)}

    def history(self, rng, cfg, enabled):
        return history.history(rng, cfg, rng.randint(*self.n_ops), enabled, reset_rate=self.reset_rate)

    def config(self, rng, kind, enabled):
        if kind == "easy":
            return {"kind": "easy"}
        if kind == "anm6":
            return {"kind": "anm6", "dt": rng.choice([0.25, 0.5, 1, 1 / 60, 1 / 12, 2.0, 24, 24.0, 36.5]),
                    "gamma": rng.choice(self.gammas), "lamb": rng.choice([0, 10, 1000]),
                    "clip": rng.choice([[None, None], [0.5, 20]])}
        cfg = netgen.config(rng, rng.choice(self.modes), self.obs_kinds, self.gammas)
        if enabled & {"surge", "initbad"}:
            netgen.surgeable(cfg, rng)
        return cfg

    def run(self, plan):
        out = Outcome()
        slot = Slot(plan["cfg"])
        mon = Monitor(slot, [self.prop])
        run_ops(slot, plan["ops"], out, mon)
        out.violations = [(k, d) for _, k, d in mon.out]
        out.states = mon.states
        self.finish(plan, slot, mon, out)
        return out

    def finish(self, plan, slot, mon, out):
        pass


@check("C04", 500, 20000)
class C04(MonitorCheck):
    allowed = ("surge", "lin", "bad", "vars", "initbad")
    gammas = (0.9, 0.995, 0.0, 0.5, 1, 1.0)
    surge = 1.0

    def history(self, rng, cfg, enabled):
        ops = super().history(rng, cfg, enabled | {"surge" if rng.random() < 0.7 else "lin"})
        # make sure that some episode collapses and goes on for a while
        k = rng.randint(1, max(1, len(ops) // 2))
        f = {"op": "step", "a": history.fractions(rng)}
        if rng.random() < 0.6 and cfg["kind"] == "grid":
            f["ctl"] = {"surge": rng.choice([1e3, 1e4, 30.0])}
        else:
            f["fault"] = {"lin": [rng.choice(["nan", "garbage", "inf", "onenan"]), "all"]}
        more = [history.step_op(rng, enabled & {"bad", "clock"}, 0.1) for _ in range(rng.randint(1, 4))]
        return ops[:k] + [f] + more + [{"op": "reset", "seed": rng.randrange(10 ** 6)}] + ops[k:]

    def config(self, rng, kind, enabled):
        return super().config(rng, kind, enabled | {"surge"})


@check("C05", 500, 20000)
class C05(MonitorCheck):
    allowed = ("surge", "lin", "bad", "qp", "initbad")
    modes = (None, None, "loads", "loads", "small")


@check("C06", 400, 16000)
class C06(MonitorCheck):
    allowed = ("surge", "lin", "bad", "vars", "qp", "initbad", "interrupt")
    modes = ("storage",)
    n_ops = (8, 20)
    obs_kinds = ("state",)


@check("C07", 450, 16000)
class C07(MonitorCheck):
    allowed = ("clock", "bad", "vars", "rng")
    modes = (None, "storage", "gens", "small")
    obs_kinds = ("state",)


@check("C08", 500, 20000)
class C08(MonitorCheck):
    allowed = ("surge", "lin", "bad", "vars", "qp", "initbad")

    def config(self, rng, kind, enabled):
        cfg = super().config(rng, kind, enabled)
        if kind == "grid" and rng.random() < 0.35:
            for b in cfg["net"]["branch"]:  # overloads even where almost nothing flows
                b[5] = netgen._r(cfg["net"]["baseMVA"] * rng.choice([0.002, 0.02, 0.01]))
            if rng.random() < 0.5:
                cfg["lamb"] = rng.choice([100, 1000])
        if kind == "grid" and rng.random() < 0.1:
            netgen.stub_cable(cfg["net"], rng)
        return cfg


@check("C09", 500, 20000)
class C09(MonitorCheck):
    allowed = ("surge", "bad", "vars", "initbad")
    obs_kinds = ("state", "list", "list", "list", "callable")
    n_ops = (4, 10)


@check("C20", 300, 8000)
class C20(MonitorCheck):
    kinds = ("easy", "anm6", "anm6", "anm6")
    allowed = ("bad", "vars", "lin", "qp", "clock", "rng")
    reset_rate = 0.08
    n_ops = (8, 24)

    def config(self, rng, kind, enabled):
        cfg = super().config(rng, kind, enabled)
        if kind == "anm6" and rng.random() < 0.8:
            cfg["dt"] = rng.choice([1 / 120, 0.01, 1 / 3, 0.7, 1 / 3600, 0.005, 24, 24.0, 36.5, 720, 1000.0, 2000.0, 4380.0,
                                    8760, 5000])
        return cfg

    def history(self, rng, cfg, enabled):
        ops = super().history(rng, cfg, enabled)
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                ops.insert(rng.randint(2, len(ops)), {"op": "setdate", "options": history.date(rng)})
        return ops


@check("C21", 300, 8000)
class C21(MonitorCheck):
    kinds = ("easy",)
    allowed = ("bad", "vars", "qp", "lin", "clock", "rng")
    n_ops = (8, 25)
    reset_rate = 0.2

    def finish(self, plan, slot, mon, out):
        # further start times, drawn through the sampling function of a fresh environment
        env = Slot({"kind": "easy"}).env
        env._begin(None)
        env.reset(seed=plan["seed"])
        more = []
        for _ in range(120):
            env.n_init = 0
            more.append(int(env.init_state()[-1]))
        out.extra["t0"] = [int(t) for t in mon.t0s] + more

    def aggregate(self, extras):
        """The start times over all runs: every quarter-hour, equally often."""
        n = Counter(t for _, r in extras for t in r["extra"].get("t0", []))
        total = sum(n.values())
        if total < 96 * 40:
            return []
        e = total / 96.0
        chi2 = sum((n[t] - e) ** 2 / e for t in range(96))
        missing = [t for t in range(96) if not n[t]]
        # 95 degrees of freedom: 240 is beyond 1 - 1e-13; a missing value at e >= 40 beyond 1 - 1e-17
        if chi2 > 240 or missing:
            return [("start_not_uniform", "start times are not uniform: chi2 = %.1f over %d draws, never drawn: %r, most "
                     "frequent: %r" % (chi2, total, missing, n.most_common(3)))]
        return []


# ---------------------------------------------------------------------------
# Differential checks: the same seeded execution with and without disturbance.
# ---------------------------------------------------------------------------
def compare(out, kind, ops, recs_a, recs_b, what, skip=()):
    for k, (a, b) in enumerate(zip(recs_a, recs_b)):
        if (a is None) != (b is None):
            out.bad(kind, "%s: call %d happens in only one of the runs" % (what, k))
            return False
        if a is None:
            continue
        va, vb = visible(a), visible(b)
        for x in skip:
            va.pop(x, None), vb.pop(x, None)
        d = diff(va, vb)
        if d:
            out.bad(kind, "%s: call %d (%s) differs: %s" % (what, k, ops[k]["op"], d))
            return False
    if len(recs_a) != len(recs_b):
        out.bad(kind, "%s: one of the runs stopped early" % what)
        return False
    return True


@check("C01", 350, 14000)
class C01(MonitorCheck):
    allowed = ("bad", "vars", "surge", "lin", "qp", "interrupt", "clock", "rng", "init", "initbad")
    modes = (None, None, "storage", "small", "loads")

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        enabled = history.swarm(rng, self.allowed, 0.6)
        cfg = self.config(rng, kind, enabled)
        pre = history.history(rng, cfg, rng.randint(2, 9), enabled, reset_rate=0.2)
        tail = history.history(rng, cfg, rng.randint(2, 4), enabled & {"bad", "vars", "surge"}, reset_rate=0.1)
        tail[0] = {"op": "reset", "seed": rng.randrange(10 ** 6)}
        if rng.random() < 0.3 and kind != "grid":
            tail[0]["options"] = history.date(rng)
        return {"prop": self.prop, "seed": seed, "cfg": cfg, "ops": pre, "tail": tail}

    def run(self, plan):
        out = Outcome()
        t2 = isolated(lambda: run_ops(Slot(plan["cfg"]), plan["tail"]))
        dirty = Slot(plan["cfg"])
        mon = Monitor(dirty, ["C01"])
        run_ops(dirty, plan["ops"], out, mon)
        out.states = mon.states
        tail = Monitor(dirty, ["C01"])
        t1 = run_ops(dirty, plan["tail"], out, tail)
        for _, kind, d in mon.out + tail.out:
            out.bad(kind, d)
        compare(out, "not_erased", plan["tail"], t1, t2, "after the reset")
        return out


@check("C02", 300, 12000, replay_is_property=True)
class C02(MonitorCheck):
    modes = (None, "storage", "gens", "gens")
    n_ops = (4, 9)
    kinds = ("grid",) * 4 + ("easy", "anm6")

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        enabled = history.swarm(rng, ("bad", "vars", "surge", "initbad"), 0.3)
        cfg = self.config(rng, kind, enabled)
        ops = self.history(rng, cfg, enabled)
        noise = []
        for _ in ops:
            f = {}
            if rng.random() < 0.7:
                f["solver_clock"] = rng.choice([25, 25, 50, 75, 125, 300, 2000])
            if rng.random() < 0.5:
                f["clock"] = rng.choice([-1e7, -3600.0, 86400.0, 1e8])
            if rng.random() < 0.6:
                f["rng"] = rng.randrange(10 ** 6)
            noise.append({"fault": f, "other": rng.random() < 0.3})
        return {"prop": self.prop, "seed": seed, "cfg": cfg, "ops": ops, "noise": noise}

    def run(self, plan):
        out = Outcome()
        seams.STATE.clock_skew, seams.STATE.solver_clock = 0.0, 100

        def undisturbed():
            seams.perturb_global_rng(1)
            a, o = Slot(plan["cfg"]), Outcome()
            mon = Monitor(a, [])
            return run_ops(a, plan["ops"], o, mon), o.log, o.sim_hours, o.stats, mon.states
        ra, out.log, out.sim_hours, out.stats, out.states = isolated(undisturbed)
        other = Slot({"kind": "easy"})
        other.do({"op": "reset", "seed": plan["seed"]})
        b = Slot(plan["cfg"])
        rb = []
        for op, nz in zip(plan["ops"], plan["noise"]):
            if op.get("if_term") and not getattr(b.env, "terminated", False):
                rb.append(None)
                continue
            if nz["other"]:
                other.do({"op": "step", "a": [0.3]})
            op2 = dict(op, fault=dict(op.get("fault") or {}, **nz["fault"]))
            rec = b.do(op2)
            rb.append(rec)
            if rec["n_init"] >= 100:
                break
        seams.STATE.clock_skew, seams.STATE.solver_clock = 0.0, 100
        compare(out, "not_reproducible", plan["ops"], ra, rb, "the second run")
        return out


@check("C11", 350, 14000)
class C11(MonitorCheck):
    n_ops = (4, 9)

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        cfg = self.config(rng, kind, {"surge"})
        base = history.history(rng, cfg, rng.randint(3, 8), {"surge"} if rng.random() < 0.4 else set(), reset_rate=0.1)
        ops = []
        for op in base:
            ops.append(op)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                r = {"op": "step", "a": history.fractions(rng), "refused": True}
                if rng.random() < 0.55:
                    r["bad"] = rng.choice(["nan", "high", "low", "shape", "shape2", "complex", "str", "none"])
                else:
                    r["ctl"] = {"vars": rng.choice(["short", "long", "exc"])}
                ops.append(r)
        return {"prop": self.prop, "seed": seed, "cfg": cfg, "ops": ops}

    def run(self, plan):
        out = Outcome()
        a, b = Slot(plan["cfg"]), Slot(plan["cfg"])
        mon = Monitor(b, ["C11"])
        good = [op for op in plan["ops"] if not op.get("refused")]
        ra = run_ops(a, good, out)
        # refused calls made after a collapse are answered, not refused, when they do not reach the sampling function
        rb = []
        for op in plan["ops"]:
            if op.get("refused") and (op.get("ctl") or {}).get("vars") and getattr(b.env, "terminated", False):
                continue
            r = run_ops(b, [op], out, mon)
            if not op.get("refused"):
                rb += r
            else:
                out.stats["refused_calls"] += 1
                if r and r[0] is not None and op.get("bad") and r[0]["n_next"]:
                    out.bad("sampled", "an invalid action made the environment sample its variables")
            if r and r[0] is not None and r[0]["n_init"] >= 100:
                break
        out.violations += [(k, d) for _, k, d in mon.out]
        out.states = mon.states
        compare(out, "not_as_before", good, ra, rb, "the episode with refused calls")
        return out


@check("C10", 350, 14000)
class C10(MonitorCheck):
    """Hand out everything, scribble on what may be scribbled on, and compare."""
    n_ops = (3, 9)

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        enabled = history.swarm(rng, ("bad", "vars", "surge", "initbad"), 0.3)
        cfg = self.config(rng, kind, enabled)
        ops = history.history(rng, cfg, rng.randint(*self.n_ops), enabled, reset_rate=0.15)
        scribble = [sorted(rng.sample(["obs", "action", "vars", "network", "obs_spec", "aux_bounds", "options"],
                                      rng.choice([0, 1, 2, 7]))) for _ in ops]
        return {"prop": self.prop, "seed": seed, "cfg": cfg, "ops": ops, "scribble": scribble}

    @staticmethod
    def scribble(slot, what):
        import numpy as np
        env = slot.env

        def wreck(x):
            if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
                if x.dtype == object:
                    x[...] = 7
                else:
                    x[...] = 12345.678
                seams.fired("scribble")
        if what == "obs" and slot.last_raw is not None:
            wreck(slot.last_raw[0] if isinstance(slot.last_raw, tuple) else slot.last_raw)
        elif what == "action":
            wreck(slot.last_action)
        elif what == "vars":
            wreck(getattr(env, "last_vars", None))
        elif what == "network" and hasattr(env, "given_network"):
            for k in ("bus", "device", "branch"):
                wreck(env.given_network[k])
            env.given_network["baseMVA"] = 3.0
        elif what == "obs_spec" and isinstance(getattr(env, "obs_spec", None), list):
            for o in env.obs_spec:
                if isinstance(o[1], list):
                    o[1][:] = [99]
            env.obs_spec.clear()
            seams.fired("scribble")

    def run(self, plan):
        out = Outcome()
        a = Slot(plan["cfg"])
        mon = Monitor(a, [])
        ra = run_ops(a, plan["ops"], out, mon)
        out.states = mon.states
        b = Slot(plan["cfg"])
        held = []   # (label, live object, frozen bytes)
        rb = []

        def hold(label, x):
            held.append((label, x, pack(x)))
        if hasattr(b.env, "given_network"):
            pristine = pack({k: [list(map(str, r)) for r in v] if k != "baseMVA" else v
                             for k, v in b.env.given_network.items()})
        spoiled = set()
        for k, (op, sc) in enumerate(zip(plan["ops"], plan["scribble"])):
            if op.get("if_term") and not getattr(b.env, "terminated", False):
                rb.append(None)
                continue
            rec = b.do(op)
            rb.append(rec)
            for label, x, was in held:
                if pack(x) != was:
                    out.bad("snapshot_changed", "%s changed during call %d (%s)" % (label, k, op["op"]))
            if isinstance(b.last_action, object) and rec.get("action") is not None and not isinstance(rec["action"], str):
                if not same(rec["action"], _vec(b.last_action)):
                    out.bad("action_written", "call %d wrote into the action" % k)
            for kind, x in b.env.draws[-1:]:
                lv = getattr(b.env, "last_vars", None)
                if lv is not None and not same(x, _vec(lv)):
                    out.bad("vars_written", "call %d wrote into the array returned by the sampling function" % k)
            if hasattr(b.env, "given_network") and "network" not in spoiled:
                now = pack({q: [list(map(str, r)) for r in v] if q != "baseMVA" else v
                            for q, v in b.env.given_network.items()})
                if now != pristine:
                    out.bad("network_written", "call %d wrote into the network description" % k)
                    break
            if rec["exc"] is None:
                raw = b.last_raw[0]
                if "obs" not in sc:
                    hold("the observation returned by call %d" % k, raw)
                hold("the state vector held since call %d" % k, b.env.state)
                hold("the network record held since call %d" % k, b.env.simulator.state)
                if "action" not in sc and b.last_action is not None:
                    hold("the action passed to call %d" % k, b.last_action)
            for w in sc:
                self.scribble(b, w)
                spoiled.add(w)
            if rec["n_init"] >= 100:
                break
        compare(out, "aliased", plan["ops"], ra, rb, "the run in which returned and supplied arrays are overwritten")
        return out


def _vec(x):
    import numpy as np
    return np.array(x, dtype=float)


@check("C12", 350, 14000)
class C12(MonitorCheck):
    modes = ("loads", "loads", "small")
    obs_kinds = ("state",)
    kinds = ("grid",) * 8 + ("easy",)

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        cfg = self.config(rng, kind, {"surge"})
        ops = []
        for _ in range(rng.randint(2, 5)):
            op = {"op": "reset", "seed": rng.randrange(10 ** 6)}
            if ops and rng.random() < 0.4:
                del op["seed"]
            k = rng.random()
            if k < 0.15:
                op["ctl"] = {"bad": rng.choice([1, 2, 3])}
            elif k < 0.6:
                op["fault"] = {"lin_draws": [rng.choice(["nan", "inf", "onenan"]),
                                             rng.choice([1, 2, 3, 7, 50, 98, 99, 99, 100, 100, 101, 150])]}
            elif k < 0.8:
                op["ctl"] = {"init": [rng.choice(["short", "long", "exc"]), 1]}
                if rng.random() < 0.6:
                    m = rng.choice([1, 2, 5, 98, 99])
                    op["fault"] = {"lin_draws": ["nan", m]}
                    op["ctl"]["init"][1] = rng.choice([m, m + 1, max(1, m - 1)])
            ops.append(op)
            for _ in range(rng.choice([0, 1, 2])):
                ops.append(history.step_op(rng, set()))
        if rng.random() < 0.03 and kind == "grid":
            ops.insert(rng.randint(0, len(ops)), {"op": "reset", "seed": 1, "ctl": {"bad": rng.choice([99, 100])}})
        ops.append({"op": "reset", "seed": rng.randrange(10 ** 6)})
        return {"prop": self.prop, "seed": seed, "cfg": cfg, "ops": ops}

    def run(self, plan):
        out = Outcome()
        slot = Slot(plan["cfg"])
        mon = Monitor(slot, ["C12"])
        run_ops(slot, plan["ops"], out, mon, give_up=False)
        out.violations = [(k, d) for _, k, d in mon.out]
        out.states = mon.states
        return out


@check("C03", 220, 9000)
class C03(MonitorCheck):
    """Solo traces against interleaved ones (call level, line level between threads, deep copies)."""
    modes = (None, "storage", "small", "gens", "loads")
    kinds = ("grid", "grid", "grid", "easy", "anm6")

    def gen(self, seed):
        rng = self.rng(seed)
        enabled = history.swarm(rng, ("bad", "surge", "vars"), 0.3)
        n = rng.choice([2, 2, 3])
        cfgs, k = [], rng.random()
        kind = rng.choice(self.kinds)
        cfgs.append(self.config(rng, kind, enabled))
        while len(cfgs) < n:
            if rng.random() < 0.65 and cfgs[0]["kind"] == "grid":
                cfgs.append(self.twin(rng, cfgs[0]))
            elif rng.random() < 0.4:
                cfgs.append(copy.deepcopy(cfgs[0]))
            else:
                cfgs.append(self.config(rng, rng.choice(self.kinds), enabled))
        agents = rng.random() < 0.4
        slots = []
        for c in cfgs:
            ops = history.history(rng, c, rng.randint(2, 5), enabled, reset_rate=0.15)
            if agents and self.mpc_ok(c):
                out = []
                for op in ops:
                    out.append(op)
                    if op["op"] == "step" or rng.random() < 0.5:
                        if rng.random() < 0.4:
                            out.append(self.act_op(rng, c))
                ops = out
            slots.append({"cfg": c, "ops": ops})
        if slots and rng.random() < 0.35:  # a deep copy taken in the middle of an episode
            src = rng.randrange(len(slots))
            at = rng.randint(1, len(slots[src]["ops"]))
            ops = history.history(rng, slots[src]["cfg"], rng.randint(2, 4), enabled, reset_rate=0.1)
            if rng.random() < 0.7:
                ops = ops[1:]
            slots.append({"cfg": slots[src]["cfg"], "copy_of": src, "at": at, "ops": ops})
        if rng.random() < 0.15:     # one after the other, each one discarded before the next one is built
            slots = [s for s in slots if "copy_of" not in s]
            for s in slots:
                s["ops"] = s["ops"][:3]
            return {"prop": self.prop, "seed": seed, "slots": slots, "threads": False,
                    "succession": [k if rng.random() < 0.8 else rng.randrange(len(slots))
                                   for _ in range(rng.choice([2, 4, 6])) for k in range(len(slots))]}
        threads = rng.random() < 0.45
        plan = {"prop": self.prop, "seed": seed, "slots": slots, "threads": threads}
        total = sum(len(s["ops"]) for s in slots)
        if threads:
            m = rng.choice([5, 20, 60])
            gaps, scale = [], rng.choice([3, 20, 80, 300])
            for _ in range(m):
                gaps.append(rng.randint(1, scale))
            plan["gaps"] = gaps
        else:
            plan["order"] = [rng.randrange(len(slots)) for _ in range(total * 2)]
        return plan

    @staticmethod
    def mpc_ok(c):
        if c["kind"] != "grid":
            return True
        return all(b[3] and not b[7] and (b[6] in (None, 1)) for b in c["net"]["branch"])

    @staticmethod
    def act_op(rng, c):
        ag = "perfect" if c["kind"] == "easy" and rng.random() < 0.5 else "constant"
        return {"op": "act", "agent": ag, "N": rng.choice([1, 1, 2, 3]), "margin": 0.9}

    @staticmethod
    def twin(rng, cfg):
        """The same identifiers everywhere, one or two parameters different."""
        c = copy.deepcopy(cfg)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["dt", "lamb", "gamma", "clip", "base", "branch", "tap", "shunt", "dev", "kv", "vmax", "dyn", "soc"])
            net = c["net"]
            if k == "dt":
                c["dt"] = rng.choice([0.25, 0.5, 1.0, 0.1])
            elif k == "lamb":
                c["lamb"] = c["lamb"] * 2 + 1
            elif k == "gamma":
                c["gamma"] = 0.7
            elif k == "clip":
                c["clip"] = [0.02, 1.0]
            elif k == "base":
                net["baseMVA"] = net["baseMVA"] * 2
            elif k == "branch":
                b = rng.choice(net["branch"])
                for j in (2, 3, 5):
                    if b[j]:
                        b[j] = b[j] * 0.5
            elif k == "tap":
                b = rng.choice(net["branch"])
                b[6] = (b[6] or 1.0) * 0.97
            elif k == "shunt":
                b = rng.choice(net["branch"])
                b[4] = (b[4] or 0.0) + 0.05
            elif k == "soc":
                for d in net["device"]:
                    if d[2] == 3:
                        d[12], d[14] = d[12] * 0.6, 0.8
                        d[13] = None if d[13] is None else d[13] * 0.5
            elif k == "dev":
                d = rng.choice(net["device"])
                for j in (4, 5, 6, 7, 8, 9, 10, 11, 12):
                    if d[j] is not None and d[2] != 0:
                        d[j] = d[j] * 0.5
            elif k == "kv":
                net["bus"][0][2] = net["bus"][0][2] * 2
            elif k == "vmax":
                for b in net["bus"]:
                    if b[1] == 1:
                        b[3] = b[3] + 0.01
            elif k == "dyn":
                c["dyn"]["level"] = c["dyn"]["level"] * 0.8
        return c

    # -- running ---------------------------------------------------------
    def solo(self, slots, i, out):
        s = slots[i]
        if "copy_of" in s:
            src = slots[s["copy_of"]]
            slot = Slot(src["cfg"])
            run_ops(slot, src["ops"][: s["at"]], None)
            return run_ops(slot, s["ops"], out)
        return run_ops(Slot(s["cfg"]), s["ops"], out)

    def run(self, plan):
        out = Outcome()
        P = plan["slots"]

        def alone(i):
            o = Outcome()
            return self.solo(P, i, o), o.log, o.sim_hours, o.stats
        want = []
        for i in range(len(P)):
            w, log, hours, stats = isolated(lambda: alone(i))
            want.append(w)
            out.log += log
            out.sim_hours += hours
            out.stats.update(stats)
        if "succession" in plan:
            import gc
            for n, i in enumerate(plan["succession"]):
                recs = run_ops(Slot(P[i]["cfg"]), P[i]["ops"])
                if not compare(out, "interference", P[i]["ops"], want[i], recs, "environment %d, built after %d others were discarded" % (i, n)):
                    return out
                gc.collect()
                out.stats["discarded"] += 1
            out.states.add(("succession", len(P), digest(plan["succession"])))
            return out
        slots, got = [None] * len(P), [[] for _ in P]
        pos = [0] * len(P)

        def make(i):
            s = P[i]
            slots[i] = Slot(s["cfg"])

        def make_copy(j):
            src = slots[P[j]["copy_of"]]
            slots[j] = Slot(P[j]["cfg"], env=copy.deepcopy(src.env))
            slots[j].agents = {}
            # agents of the source keep planning for the source only
            out.stats["deep_copies"] += 1

        def one(i):
            """Run the next operation of slot i; returns False when there is none."""
            s = P[i]
            if slots[i] is None:
                return False
            k = pos[i]
            if k >= len(s["ops"]):
                return False
            pos[i] += 1
            r = run_ops(slots[i], [s["ops"][k]], None)
            got[i] += r
            if r[0] is not None and r[0]["n_init"] >= 100:
                pos[i] = 10 ** 9
            for j, t in enumerate(P):
                if t.get("copy_of") == i and slots[j] is None and (pos[i] == t["at"]):
                    make_copy(j)
            return True
        for i, s in enumerate(P):
            if "copy_of" not in s:
                make(i)
        if plan["threads"]:
            from .baton import Baton
            gaps = plan["gaps"]
            b = Baton([g for _ in range(40) for g in gaps] if gaps else [])

            def runner(i):
                def f():
                    while one(i):
                        pass
                return f
            # copies start once they exist: their thread follows the source
            firsts = [i for i, s in enumerate(P) if "copy_of" not in s]
            b.run([runner(i) for i in firsts])
            rest = [i for i, s in enumerate(P) if "copy_of" in s and slots[i] is not None]
            if rest:
                Baton([]).run([runner(i) for i in rest])
            out.stats["preemptions"] += b.switches
            out.states.add(("preempted", digest(b.where)))
        else:
            for i in plan["order"]:
                one(i)
            for i in range(len(P)):
                while one(i):
                    pass
            out.states.add(("order", digest(plan["order"])))
        for i in range(len(P)):
            if slots[i] is None:
                continue
            if not compare(out, "interference", P[i]["ops"], want[i], got[i], "environment %d of %d" % (i, len(P))):
                break
        return out
