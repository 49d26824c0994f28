"""C13, C14: the MPC agents against an independent linear program (HiGHS) for the multi-stage DC optimal power flow."""
import copy
import pickle
import sys

import numpy as np
from scipy.optimize import linprog
from scipy.sparse import coo_matrix

from . import seams
from . import netgen, history
from .checks import MonitorCheck, Outcome, check, run_ops, compare
from .world import Slot, digest, pack, vec, visible, snapshot

REAL = ("gym_anm (environment, simulator, MPC agents), cvxpy and its solvers, gymnasium, numpy, scipy")


class DCOPF:
    """min sum_i gamma^i [sum of non-renewable generation + lamb * sum max(0, |P_ij| - beta * rate_ij)], per unit."""

    def __init__(self, ref, dt, gamma, lamb, beta, loads, gens, soc):
        """loads (n_load, N), gens (n_gen, N): forecasts; soc (n_des,): current levels."""
        self.ref, self.N = ref, loads.shape[1]
        nb, nbr, ng, ns = len(ref.bus_ids), len(ref.branches), len(ref.gen_ids), len(ref.des_ids)
        self.ng, self.ns = ng, ns
        # variables of one stage: theta, P of the slack device, P of the generators, charge, discharge, overload
        self.o_th, self.o_sl, self.o_g = 0, nb, nb + 1
        self.o_c, self.o_d = self.o_g + ng, self.o_g + ng + ns
        self.o_o = self.o_d + ns
        self.nv = nv = self.o_o + nbr
        N = self.N
        B = [-(br["y"] / abs(br["tap"])).imag for br in ref.branches]
        c = np.zeros(nv * N)
        lb, ub = np.full(nv * N, -np.inf), np.full(nv * N, np.inf)
        er, ec, ev, eb = [], [], [], []
        ur, uc, uv, ubb = [], [], [], []

        def eq(terms, rhs):
            for k, v in terms:
                er.append(len(eb)), ec.append(k), ev.append(v)
            eb.append(rhs)

        def le(terms, rhs):
            for k, v in terms:
                ur.append(len(ubb)), uc.append(k), uv.append(v)
            ubb.append(rhs)
        for i in range(N):
            z = i * nv
            disc = gamma ** i
            c[z + self.o_sl] = disc
            for k, g in enumerate(ref.gen_ids):
                d = ref.dev[g]
                if d.type == 1:
                    c[z + self.o_g + k] = disc
                lb[z + self.o_g + k] = d.p_min
                ub[z + self.o_g + k] = min(d.p_max, gens[k, i])
            for k, b in enumerate(ref.bus_ids):
                lb[z + k], ub[z + k] = (0, 0) if b == ref.slack_bus else (-np.pi, np.pi)
            for k, s in enumerate(ref.des_ids):
                d = ref.dev[s]
                lb[z + self.o_c + k] = lb[z + self.o_d + k] = 0.0
                p = [(z + self.o_d + k, 1.0), (z + self.o_c + k, -1.0)]
                if np.isfinite(d.p_max):
                    le(p, d.p_max)
                if np.isfinite(d.p_min):
                    le([(a, -b) for a, b in p], -d.p_min)
                lev = []
                for j in range(i + 1):
                    lev += [(j * nv + self.o_c + k, dt * d.eff), (j * nv + self.o_d + k, -dt / d.eff)]
                le(lev, d.soc_max - soc[k])
                le([(a, -b) for a, b in lev], soc[k] - d.soc_min)
            for k, br in enumerate(ref.branches):
                f, t = z + ref.idx[br["f"]], z + ref.idx[br["t"]]
                o = z + self.o_o + k
                lb[o] = 0.0
                if np.isfinite(br["rate"]):
                    c[o] = disc * lamb
                    le([(f, B[k]), (t, -B[k]), (o, -1.0)], beta * br["rate"])
                    le([(f, -B[k]), (t, B[k]), (o, -1.0)], beta * br["rate"])
                else:
                    ub[o] = 0.0
            for b in ref.bus_ids:
                terms, rhs = [], 0.0
                for k, br in enumerate(ref.branches):
                    f, t = z + ref.idx[br["f"]], z + ref.idx[br["t"]]
                    if br["f"] == b:
                        terms += [(f, B[k]), (t, -B[k])]
                    elif br["t"] == b:
                        terms += [(t, B[k]), (f, -B[k])]
                if b == ref.slack_bus:
                    terms.append((z + self.o_sl, -1.0))
                for k, g in enumerate(ref.gen_ids):
                    if ref.dev[g].bus == b:
                        terms.append((z + self.o_g + k, -1.0))
                for k, s in enumerate(ref.des_ids):
                    if ref.dev[s].bus == b:
                        terms += [(z + self.o_d + k, -1.0), (z + self.o_c + k, 1.0)]
                for k, l in enumerate(ref.load_ids):
                    if ref.dev[l].bus == b:
                        rhs += loads[k, i]
                eq(terms, rhs)
        self.c, self.lb, self.ub = c, lb, ub
        m = nv * N
        self.A_eq, self.b_eq = coo_matrix((ev, (er, ec)), shape=(len(eb), m)).tocsr(), np.array(eb)
        self.A_ub = coo_matrix((uv, (ur, uc)), shape=(len(ubb), m)).tocsr() if ubb else None
        self.b_ub = np.array(ubb) if ubb else None

    def solve(self, first=None, tol=5e-5):
        """Optimal value, optionally with the first stage fixed: first = (P gens, P storage) in p.u.; None if infeasible."""
        lb, ub = self.lb.copy(), self.ub.copy()
        A, b = self.A_ub, self.b_ub
        if first is not None:
            pg, ps = first
            for k in range(self.ng):
                j, e = self.o_g + k, tol * (1 + abs(pg[k]))
                lo, hi = max(lb[j], pg[k] - e), min(ub[j], pg[k] + e)
                if lo > hi:
                    return None
                lb[j], ub[j] = lo, hi
            rows, rhs = [], []
            for k in range(self.ns):
                row = np.zeros(len(lb))
                row[self.o_d + k], row[self.o_c + k] = 1.0, -1.0
                e = tol * (1 + abs(ps[k]))
                rows += [row, -row]
                rhs += [ps[k] + e, -ps[k] + e]
            if rows:
                from scipy.sparse import vstack
                A = coo_matrix(np.array(rows)).tocsr() if A is None else vstack([A, coo_matrix(np.array(rows))]).tocsr()
                b = np.array(rhs) if b is None else np.concatenate((b, rhs))
        r = linprog(self.c, A_ub=A, b_ub=b, A_eq=self.A_eq, b_eq=self.b_eq, bounds=np.column_stack((lb, ub)), method="highs")
        return float(r.fun) if r.status == 0 else None


def _custom_agent():
    from gym_anm.agents.mpc import MPCAgent

    class Scripted(MPCAgent):
        """A user's agent with forecasts of its own."""
        script = None

        def forecast(self, env):
            return self.script
    return Scripted


class MPCSlot(Slot):
    def agent(self, op):
        if op.get("agent") != "custom":
            return super().agent(op)
        key = ("custom", op["N"], op.get("margin", 0.9), op.get("inst", 0))
        if key not in self.agents or op.get("fresh"):
            self.agents[key] = _custom_agent()(self.env.simulator, self.env.action_space, self.cfg["gamma"],
                                               safety_margin=key[2], planning_steps=key[1])
        ag = self.agents[key]
        ag.script = self.forecasts(op)
        return ag

    def forecasts(self, op):
        """What a user's own forecast function returns, from the fractions of the operation."""
        fr = op["f"]
        N, ref = op["N"], self.ref
        loads, gens = np.zeros((len(ref.load_ids), N)), np.zeros((len(ref.gen_ids), N))
        q = 0
        for i in range(N):
            for k, d in enumerate(ref.load_ids):
                lo = ref.dev[d].p_min if np.isfinite(ref.dev[d].p_min) else -0.2
                loads[k, i] = lo + fr[q % len(fr)] * (ref.dev[d].p_max - lo)
                q += 1
            for k, d in enumerate(ref.gen_ids):
                lo, hi = ref.dev[d].p_min, ref.dev[d].p_max if np.isfinite(ref.dev[d].p_max) else 0.5
                gens[k, i] = lo + fr[q % len(fr)] * 1.1 * (hi - lo)
                q += 1
        return loads, gens

    def do(self, op):
        if op["op"] == "actcopy":   # the same agent plans for a copy of the environment
            env = self.env
            other = copy.deepcopy(env)
            try:
                for fr in op["a"]:
                    other._begin(None)
                    other.step(self.action(fr))
                    if other.terminated:
                        other = copy.deepcopy(env)
                        break
                self.env = other
                return super().do(dict(op, op="act"))
            finally:
                self.planned = other
                self.env = env
        self.planned = self.env
        return super().do(op)


def everything(env):
    """Bytes of the whole environment: attributes of the environment and of its simulator, recursively."""
    seen = set()

    def walk(x, depth):
        if depth > 7 or isinstance(x, (type, type(sys))) or callable(x) and not hasattr(x, "__dict__"):
            return b"-"
        if x is None or isinstance(x, (bool, int, float, str, np.generic, np.ndarray)):
            return pack(x) if not (isinstance(x, np.ndarray) and x.dtype == object) else repr(x.tolist()).encode()
        if isinstance(x, complex):
            return repr(x).encode()
        if id(x) in seen:
            return b"@"
        if isinstance(x, (list, tuple)):
            return b"[" + b",".join(walk(v, depth + 1) for v in x) + b"]"
        if isinstance(x, dict):
            seen.add(id(x))
            return b"{" + b",".join(str(k).encode() + b":" + walk(v, depth + 1) for k, v in x.items()) + b"}"
        if isinstance(x, np.random.Generator):
            return repr(x.bit_generator.state).encode()
        if hasattr(x, "tocoo"):
            return np.ascontiguousarray(x.toarray()).tobytes()
        if callable(x):
            return b"-"
        if hasattr(x, "__dict__"):
            seen.add(id(x))
            d = vars(x)
            return type(x).__name__.encode() + b"(" + b",".join(
                k.encode() + b"=" + walk(d[k], depth + 1) for k in sorted(d) if k not in
                ("draws", "ctl", "n_init", "n_next", "seen", "last_vars")) + b")"
        return repr(x).encode()
    return walk(env, 0)


def live(env):
    return getattr(env, "state", None) is not None and not getattr(env, "terminated", False) \
        and env.simulator.state is not None


def realised(slot, env, N, out):
    """Demand and generation limits over the next N steps, as a copy of the environment realises them (p.u.)."""
    e = copy.deepcopy(env)
    ref = slot.ref
    loads, gens = np.zeros((len(ref.load_ids), N)), np.zeros((len(ref.gen_ids), N))
    mid = slot.action([0.5])
    for i in range(N):
        e._begin(None)
        _, _, term, _, _ = e.step(mid)
        if term:
            return None
        st = e.simulator.state
        loads[:, i] = [st["dev_p"]["pu"][d] for d in ref.load_ids]
        gens[:, i] = [st["gen_p_max"]["pu"][d] for d in ref.gen_ids]
    out.stats["realised_steps"] += N
    return loads, gens


def plan_for(slot, op, env, out):
    """The linear program of the planning problem behind an act call."""
    ref, st = slot.ref, env.simulator.state
    N = op["N"]
    if op["agent"] == "constant":
        loads = np.array([[st["dev_p"]["pu"][d]] * N for d in ref.load_ids]).reshape(-1, N)
        gens = np.array([[st["gen_p_max"]["pu"][d]] * N for d in ref.gen_ids]).reshape(-1, N)
    elif op["agent"] == "custom":
        loads, gens = slot.forecasts(op)
    else:
        r = realised(slot, env, N, out)
        if r is None:
            return None
        loads, gens = r
    soc = [st["des_soc"]["pu"][d] for d in ref.des_ids]
    return DCOPF(ref, slot.cfg["dt"], slot.cfg["gamma"], slot.cfg["lamb"], op["margin"], loads, gens, soc)


def split(ref, a):
    s = ref.split_action(a)
    return [s[i][0] for i in ref.gen_ids], [s[i][0] for i in ref.des_ids]


class MPCBase(MonitorCheck):
    kinds = ("grid", "grid", "grid", "easy", "easy", "anm6")
    modes = (None, "storage", "storage", "gens", "small")
    gammas = (0.9, 0.995, 0.5, 0.3, 1.0)
    agent_faults = ()
    long_plans = False

    @staticmethod
    def corridor(rng, cfg):
        """A chain of tight lines with a small storage unit at its end: the stages compete for its energy."""
        r, base = netgen._r, cfg["net"]["baseMVA"]
        ids = sorted(rng.sample(range(12), rng.choice([2, 3, 4])))
        if rng.random() < 0.5:
            ids.reverse()
        n = len(ids)
        bus = [[b, 1, 33, 1.1, 0.9] for b in ids]
        bus[0][1], bus[0][3:] = 0, [1.0, 1.0]
        branch = [[ids[k], ids[k + 1], r(rng.uniform(0.001, 0.01)), r(rng.uniform(0.01, 0.05)), 0.0,
                   r(base * rng.uniform(0.02, 0.25)), None, None] for k in range(n - 1)]
        nn = [None] * 15
        dev = [[0, ids[0], 0] + nn[3:]]
        for k in range(1, n):
            if k == n - 1 or rng.random() < 0.5:
                row = [len(dev), ids[k], -1, 0.2, 0, r(-base * rng.uniform(0.05, 0.3))] + nn[6:]
                dev.append(row)
        p = rng.uniform(0.02, 0.2)
        row = [len(dev), ids[-1], 3, None, r(base * p), r(-base * p), r(base * 0.1), r(-base * 0.1)] + nn[8:]
        row[12], row[13], row[14] = r(base * p * cfg["dt"] * rng.choice([0.5, 1, 1.5])), 0, rng.choice([1.0, 0.9, 0.7])
        dev.append(row)
        cfg["net"] = {"baseMVA": base, "bus": bus, "branch": branch, "device": dev}
        cfg["obs"], cfg["corridor"] = "state", True
        cfg["lamb"], cfg["gamma"] = rng.choice([0.4, 1.5, 2.5, 6, 100]), rng.choice([0.3, 0.45, 0.6, 0.8, 0.9])
        return cfg

    def config(self, rng, kind, enabled):
        if kind != "grid":
            return super().config(rng, kind, enabled)
        cfg = netgen.config(rng, rng.choice(self.modes), ("state",), self.gammas, dc=True)
        if cfg["gamma"] == 1.0:
            cfg["clip"] = [1, 100]
        if rng.random() < 0.6:   # make the line ratings bind
            for b in cfg["net"]["branch"]:
                if rng.random() < 0.6:
                    b[5] = netgen._r(cfg["net"]["baseMVA"] * rng.choice([0.02, 0.05, 0.1, 0.2]))
        if rng.random() < 0.4:
            cfg = self.corridor(rng, cfg)
        return cfg

    def act_op(self, rng, cfg, known):
        k = rng.random()
        if known and k < 0.6:
            op = dict(rng.choice(known))
            op.pop("fault", None)
        else:
            kind = "constant"
            if cfg["kind"] == "easy" and rng.random() < 0.6:
                kind = "perfect"
            elif rng.random() < (0.8 if "corridor" in cfg else 0.5):
                kind = "custom"
            N = rng.choice([1, 1, 2, 2, 3, 4])
            if rng.random() < 0.2 and all(o["N"] < 5 for o in known):
                N = rng.choice([6, 8, 12])
                if self.long_plans and rng.random() < 0.15:
                    N = rng.choice([24, 40, 96, 97, 100])
            op = {"op": "act", "agent": kind, "N": N, "margin": rng.choice([0.9, 0.9, 1.0, 0.5, 0.0, 0.97]),
                  "inst": rng.choice([0, 0, 0, 1])}
            known.append(op)
            op = dict(op)
        if op["agent"] == "custom":
            op["f"] = [round(rng.random(), 3) for _ in range(rng.choice([1, 3, 7, 11]))]
        if rng.random() < 0.2:
            op["compare"] = True
        if rng.random() < 0.12:
            op["op"] = "actcopy"
            op["a"] = [history.fractions(rng) for _ in range(rng.choice([0, 1, 2]))]
        return op

    def gen(self, seed):
        rng = self.rng(seed)
        kind = rng.choice(self.kinds)
        enabled = history.swarm(rng, ("bad", "vars", "surge", "initbad"), 0.3)
        faults = history.swarm(rng, self.agent_faults)
        cfg = self.config(rng, kind, enabled)
        ops, known = [], []
        for op in history.history(rng, cfg, rng.randint(2, 7), enabled, reset_rate=0.15):
            if op["op"] == "step" and rng.random() < 0.35:
                op["follow"] = True   # the action last planned
            ops.append(op)
            for _ in range(rng.choice([2, 4] if "corridor" in cfg else [0, 1, 1, 2, 3])):
                a = self.act_op(rng, cfg, known)
                if faults and rng.random() < 0.35:
                    k = rng.choice(sorted(faults))
                    if k == "interrupt":
                        a["fault"] = {"interrupt": rng.choice([rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 3000)])}
                    elif k == "qp":
                        a["fault"] = {"qp": [rng.choice(["error", "none", "interrupt"]), [0]]}
                    elif k == "clock":
                        a["fault"] = {"clock": rng.choice([-1e6, 3600.0, 1e7]), "solver_clock": rng.choice([25, 75, 1000])}
                    elif k == "rng":
                        a["fault"] = {"rng": rng.randrange(10 ** 6)}
                ops.append(a)
            if self.long_plans and kind == "easy" and rng.random() < 0.3:
                ops.append({"op": "forecast", "agent": "perfect", "N": rng.choice([5, 20, 95, 96, 97, 150, 192, 193, 300])})
        return {"prop": self.prop, "seed": seed, "cfg": cfg, "ops": ops}

    def execute(self, plan, out, on_act):
        """Run the plan with planning calls; returns (the calls without planning, their records)."""
        slot = MPCSlot(plan["cfg"])
        n = len(slot.lo)
        good, recs, last = [], [], None
        for k, op in enumerate(plan["ops"]):
            if op["op"] in ("act", "actcopy", "forecast"):
                if not live(slot.env):
                    continue
                if op["op"] == "forecast":
                    on_act(k, op, None, slot, False)
                    continue
                before = everything(slot.env)
                with _quiet():
                    rec = slot.do(op)
                out.log.append(digest([rec["exc"], None if rec.get("act") is None else np.round(rec["act"], 4)]))
                out.stats["op_" + op["op"]] += 1
                out.states.add((op["agent"], op["N"], bool(op.get("fault"))))
                if everything(slot.env) != before:
                    out.bad("disturbed", "call %d: act changed the environment" % k)
                faulty = bool(set(op.get("fault") or {}) & {"qp", "interrupt"})
                if faulty:
                    out.stats["faulted_acts"] += 1
                    if rec["exc"]:
                        continue
                on_act(k, op, rec, slot, faulty)
                if rec.get("act") is not None and rec["act"].shape == (n,) and slot.env.action_space.contains(rec["act"]):
                    last = rec["act"]
                continue
            if op.get("if_term") and not getattr(slot.env, "terminated", False):
                continue
            op = dict(op)
            if op.get("follow") and last is not None and not op.get("bad"):
                op["exact"] = last.tolist()
            rec = do_exact(slot, op)
            out.log.append(digest(visible(rec)))
            out.stats["op_" + op["op"]] += 1
            if op["op"] == "step" and rec["exc"] is None:
                out.sim_hours += slot.cfg["dt"]
            good.append(op)
            recs.append(rec)
            if rec["n_init"] >= 100:
                break
        return slot, good, recs


def do_exact(slot, op):
    if "exact" not in op:
        return slot.do(op)
    orig = slot.action
    try:
        slot.action = lambda fr: np.array(op["exact"])
        return slot.do(op)
    finally:
        del slot.action


class _quiet:
    """The agents print the solver status when it is not optimal."""

    def __enter__(self):
        import io
        self.out, sys.stdout = sys.stdout, io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.out


def tol(*js):
    return 1e-5 * (1 + max(abs(j) for j in js))


@check("C13", 200, 8000, real=REAL)
class C13(MPCBase):
    agent_faults = ("interrupt", "qp", "clock", "rng")

    def run(self, plan):
        out = Outcome()

        def on_act(k, op, rec, slot, faulty):
            env = slot.planned
            a = rec.get("act")
            lp = None
            if rec["exc"] or a is None or not np.all(np.isfinite(a)):
                lp = plan_for(slot, op, env, out)
                if lp is None or lp.solve() is None:
                    out.stats["infeasible"] += 1
                    return
            if rec["exc"]:
                out.bad("act_failed", "call %d: act raised %s: %s" % (k, rec["exc"], rec.get("exc_msg")))
                return
            sp = env.action_space
            if a is None or a.shape != sp.shape or not np.all(np.isfinite(a)) or not sp.contains(a):
                out.bad("invalid_action", "call %d: act returned %r, which is not a finite element of the action space"
                        % (k, a))
                return
            if faulty or op["N"] > 4 and not op.get("compare"):
                return
            # a new agent, in the same state
            key = dict(op, fresh=True, inst="fresh", op="act")
            key.pop("fault", None)
            env0, slot.env = slot.env, env
            try:
                with _quiet():
                    rec2 = Slot.do(slot, key)
            finally:
                slot.env = env0
            b = rec2.get("act")
            if rec2["exc"] or b is None or b.shape != sp.shape:
                out.bad("act_failed", "call %d: a new agent's act gave %s: %s" % (k, rec2["exc"], rec2.get("exc_msg")))
                return
            if np.allclose(a, b, rtol=1e-4, atol=1e-4 * slot.ref.base):
                out.stats["same_action"] += 1
                return
            lp = lp or plan_for(slot, op, env, out)
            if lp is None:
                return
            ja, jb = lp.solve(split(slot.ref, a)), lp.solve(split(slot.ref, b))
            if ja is None and jb is None:
                return
            if ja is None or jb is None or abs(ja - jb) > tol(ja, jb):
                out.bad("history_dependent", "call %d: the agent used before returns %r, a new one %r in the same state "
                        "(costs %r and %r)" % (k, a, b, ja, jb))
        slot, good, recs = self.execute(plan, out, on_act)
        # the same episode without planning
        quiet = MPCSlot(plan["cfg"])
        want = [do_exact(quiet, op) for op in good]
        compare(out, "influenced", good, recs, want, "the episode with planning")
        return out


@check("C14", 200, 8000, real=REAL)
class C14(MPCBase):
    agent_faults = ("clock", "interrupt", "qp")
    long_plans = True
    kinds = ("grid", "grid", "grid", "easy", "easy", "easy", "anm6")

    def run(self, plan):
        out = Outcome()

        def forecast(k, op, slot):
            """The perfect forecast, whatever the horizon, is what the environment will realise."""
            true = realised(slot, slot.env, op["N"], out)
            if true is None:
                return
            got = slot.agent(op).forecast(slot.env)
            out.stats["forecasts"] += 1
            for name, g, w in zip(("demand", "generation limits"), got, true):
                g = np.asarray(g)
                if name != "demand" and g.shape == w.shape:   # what a generator can deliver
                    g = np.minimum(g, [[slot.ref.dev[d].p_max] for d in slot.ref.gen_ids])
                if g.shape != w.shape or not np.allclose(g, w, rtol=1e-9, atol=1e-12):
                    out.bad("forecast", "call %d: the perfect forecast of the %s over %d steps is not what the environment "
                            "then realises (%s for %s)" % (k, name, op["N"], g.shape, w.shape))

        def on_act(k, op, rec, slot, faulty):
            if op["op"] == "forecast":
                return forecast(k, op, slot)
            a = rec.get("act")
            if faulty:
                return
            lp = plan_for(slot, op, slot.planned, out)
            if lp is None:
                return
            free = lp.solve()
            if free is None:
                out.stats["infeasible"] += 1
                return
            out.stats["plans_judged"] += 1
            if rec["exc"] or a is None or a.shape != slot.planned.action_space.shape:
                out.bad("no_plan", "call %d: the planning problem has the optimum %r but act gave %s: %s"
                        % (k, free, rec["exc"], rec.get("exc_msg")))
                return
            fixed = lp.solve(split(slot.ref, a))
            if fixed is None:
                fixed = lp.solve(split(slot.ref, a), 1e-3)
                if fixed is None:
                    out.bad("infeasible", "call %d: no feasible plan starts with %r (N = %d, %s forecasts)"
                            % (k, a.tolist(), op["N"], op["agent"]))
                    return
            if fixed > free + tol(free, fixed):
                out.bad("suboptimal", "call %d: the best plan starting with %r costs %r, the optimum is %r (N = %d, %s "
                        "forecasts)" % (k, a.tolist(), fixed, free, op["N"], op["agent"]))
        self.execute(plan, out, on_act)
        return out
