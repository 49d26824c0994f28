"""Oracles: what every recorded operation must satisfy, per property.

`Monitor` follows one environment through its history with a tiny status model
(unset / live / terminal / dirty) and evaluates the requested properties.
A violation is (kind, detail); the kind is the class kept during minimisation.
"""
import cmath
import datetime as dt
import math
import numpy as np

from .netgen import UNITS, obs_ids
from .world import clean, same, diff
from .envs import OBS_FUNCS

PF_TOL = 1.1e-5      # documented power-flow tolerance (1e-5) plus rounding
QP_TOL = 1e-4        # accuracy of the set-point projection (p.u. scale; measured worst case 1.4e-5)
EXACT = 1e-9


def close(a, b, tol=EXACT):
    if a == b:
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))


# -- C05 ------------------------------------------------------------------
def voltages(ref, s):
    return {i: s[("bus_v_magn", "pu", i)] * cmath.exp(1j * s[("bus_v_ang", "rad", i)]) for i in ref.bus_ids}


def pf_mismatch(ref, s):
    """Largest violation of the power-flow equations at the PQ buses (inf if the state is not finite)."""
    try:
        V = voltages(ref, s)
        v = np.array([V[i] for i in ref.bus_ids])
        S = v * np.conj(ref.Y @ v)
        worst = abs(v[ref.idx[ref.slack_bus]] - ref.v_slack)
        for i in ref.bus_ids:
            if i == ref.slack_bus:
                continue
            inj = sum(complex(s[("dev_p", "pu", d.id)], s[("dev_q", "pu", d.id)]) for d in ref.dev.values() if d.bus == i)
            e = S[ref.idx[i]] - inj
            worst = max(worst, abs(e.real), abs(e.imag))
        return worst if math.isfinite(worst) else math.inf
    except (KeyError, OverflowError, ValueError):
        return math.inf


def check_units(ref, s):
    b = ref.base
    for (k, u, i), x in s.items():
        if u in ("MW", "MVAr", "MWh", "MVA"):
            y = s.get((k, "pu", i))
            exp = None if y is None else y * b
        elif u == "kV":
            exp = s[(k, "pu", i)] * ref.bus[i]["kv"]
        elif u == "kA":
            exp = s[(k, "pu", i)] * b / ref.bus[i]["kv"]
        elif u == "degree":
            exp = s[(k, "rad", i)] * 180.0 / math.pi
        else:
            continue
        if exp is None or not close(x, exp):
            yield ("units", "%s of %s: %r %s but %r in the other unit" % (k, i, x, u, exp))


def check_power_flow(ref, s):
    for k, us in UNITS.items():
        if k == "aux":
            continue
        for i in {"bus": ref.bus_ids, "dev": ref.dev_ids, "des": ref.des_ids, "gen": ref.gen_ids,
                  "bra": [(b["f"], b["t"]) for b in ref.branches]}[k[:3]]:
            for u in us:
                x = s.get((k, u, i))
                if x is None or not math.isfinite(x):
                    yield ("nonfinite", "%s of %s in %s is %r in a live state" % (k, i, u, x))
                    return
    V = voltages(ref, s)
    sb = ref.slack_bus
    if not close(s[("bus_v_magn", "pu", sb)], ref.v_slack) or abs(s[("bus_v_ang", "rad", sb)]) > 1e-9:
        yield ("slack_voltage", "slack voltage %r at %r rad, expected %r at 0" %
               (s[("bus_v_magn", "pu", sb)], s[("bus_v_ang", "rad", sb)], ref.v_slack))
    v = np.array([V[i] for i in ref.bus_ids])
    I = ref.Y @ v
    for i in ref.bus_ids:
        k = ref.idx[i]
        p = sum(s[("dev_p", "pu", d.id)] for d in ref.dev.values() if d.bus == i)
        q = sum(s[("dev_q", "pu", d.id)] for d in ref.dev.values() if d.bus == i)
        bp, bq = s[("bus_p", "pu", i)], s[("bus_q", "pu", i)]
        if not (close(bp, p, 1e-8) and close(bq, q, 1e-8)):
            yield ("bus_sum", "bus %d injects (%r, %r) but its devices inject (%r, %r)" % (i, bp, bq, p, q))
        S = v[k] * I[k].conjugate()
        tol = 1e-8 * (1 + abs(S)) if i == sb else PF_TOL
        if abs(S.real - bp) > tol or abs(S.imag - bq) > tol:
            yield ("kirchhoff", "bus %d: voltages imply an injection of %r but (%r, %r) is reported" % (i, S, bp, bq))
        im = s[("bus_i_magn", "pu", i)]
        if abs(im - abs(I[k])) > 1e-8 * (1 + abs(I[k])):
            yield ("bus_current", "bus %d: current %r, expected %r" % (i, im, abs(I[k])))
        elif abs(I[k]) > 1e-6 and abs(im * cmath.exp(1j * s[("bus_i_ang", "rad", i)]) - I[k]) > 1e-7 * (1 + abs(I[k])):
            yield ("bus_current", "bus %d: current angle %r, expected %r" % (i, s[("bus_i_ang", "rad", i)], cmath.phase(I[k])))
    for br in ref.branches:
        f, t = br["f"], br["t"]
        yff, yft, ytf, ytt = ref.pi(br)
        i_f, i_t = yff * V[f] + yft * V[t], ytf * V[f] + ytt * V[t]
        s_f, s_t = V[f] * i_f.conjugate(), V[t] * i_t.conjugate()
        g = lambda k, u="pu": s[(k, u, (f, t))]
        tol = 1e-8 * (1 + abs(s_f) + abs(s_t))
        if abs(g("branch_p") - s_f.real) > tol or abs(g("branch_q") - s_f.imag) > tol:
            yield ("branch_flow", "branch %s: flow (%r, %r), expected %r" % ((f, t), g("branch_p"), g("branch_q"), s_f))
        m = max(abs(s_f), abs(s_t))
        if abs(abs(g("branch_s")) - m) > tol or (abs(s_f.real) > 1e-7 and g("branch_s") * s_f.real < 0):
            yield ("branch_s", "branch %s: apparent flow %r, expected %r with the sign of %r" %
                   ((f, t), g("branch_s"), m, s_f.real))
        tol = 1e-8 * (1 + abs(i_f))
        im = g("branch_i_magn")
        if abs(abs(im) - abs(i_f)) > tol or (abs(i_f.real) > 1e-7 and im * i_f.real < 0):
            yield ("branch_i", "branch %s: current %r, expected %r" % ((f, t), im, i_f))
        if abs(i_f) > 1e-6 and abs(cmath.exp(1j * g("branch_i_ang", "rad")) - i_f / abs(i_f)) > 1e-6:
            yield ("branch_i", "branch %s: current angle %r, expected %r" % ((f, t), g("branch_i_ang", "rad"), cmath.phase(i_f)))
    yield from check_units(ref, s)


def injections(ref, s):
    """Complex bus injections (non-slack) from reported device powers, or None."""
    out = {i: 0j for i in ref.bus_ids}
    for d in ref.dev.values():
        if d.is_slack:
            continue
        x = complex(s[("dev_p", "pu", d.id)], s[("dev_q", "pu", d.id)])
        if not (math.isfinite(x.real) and math.isfinite(x.imag)):
            return None
        out[d.bus] += x
    return out


def easily_solvable(ref, inj):
    it, V = ref.newton(inj)
    return it is not None and it <= 8 and min(abs(x) for x in V.values()) > 0.5


def request_injections(ref, P, Q, load, pot, soc, delta_t):
    """Injections the documented device model produces for a request (reference projection)."""
    out = {i: 0j for i in ref.bus_ids}
    for d in ref.dev.values():
        if d.is_slack:
            continue
        if d.type == -1:
            p = min(max(load[d.id], d.p_min), d.p_max)
            out[d.bus] += complex(p, p * d.qp)
            continue
        if d.type == 3:
            x = d.project(P[d.id], Q[d.id], None, soc[d.id], delta_t)
        else:
            x = d.project(P[d.id], Q[d.id], min(max(pot[d.id], d.p_min), d.p_max))
        if x is None:
            return None
        out[d.bus] += complex(*x)
    return out


def split_init(ref, x):
    """Initial state vector (MW...) -> p.u. requests {id: ...}."""
    n, b = len(ref.dev_ids), ref.base
    P = {i: x[k] / b for k, i in enumerate(ref.dev_ids)}
    Q = {i: x[n + k] / b for k, i in enumerate(ref.dev_ids)}
    soc = {i: x[2 * n + k] / b for k, i in enumerate(ref.des_ids)}
    pot = {i: x[2 * n + len(ref.des_ids) + k] / b for k, i in enumerate(ref.gen_ids)}
    return P, Q, soc, pot


def split_vars(ref, x):
    L, G, b = len(ref.load_ids), len(ref.gen_ids), ref.base
    return ({i: x[k] / b for k, i in enumerate(ref.load_ids)},
            {i: x[L + k] / b for k, i in enumerate(ref.gen_ids)}, [float(v) for v in x[L + G:]])


def init_solvable(ref, x, delta_t):
    P, Q, soc, pot = split_init(ref, x)
    full = {i: (ref.dev[i].soc_min if P[i] <= 0 else ref.dev[i].soc_max) for i in ref.des_ids}
    inj = request_injections(ref, P, Q, P, pot, full, delta_t)
    return inj is not None and easily_solvable(ref, inj)


# -- C09 ------------------------------------------------------------------
def expand_obs(cfg):
    """[(key, id, unit)] for a list/"state" observation."""
    net, K = cfg["net"], cfg["K"]
    spec = cfg["obs"]
    if spec == "state":
        spec = [["dev_p", "all", "MW"], ["dev_q", "all", "MVAr"], ["des_soc", "all", "MWh"],
                ["gen_p_max", "all", "MW"], ["aux", "all", None]]
    out = []
    for o in spec:
        unit = o[2] if len(o) > 2 else UNITS[o[0]][0]
        ids = obs_ids(net, o[0], K) if isinstance(o[1], str) else o[1]
        out += [(o[0], tuple(int(v) for v in i) if isinstance(i, list) else int(i), unit) for i in ids]
    return out


class Monitor:
    def __init__(self, slot, props):
        self.slot, self.ref, self.cfg = slot, slot.ref, slot.cfg
        self.props = set(props)
        self.status = "unset"
        self.prev = None           # snapshot after the previous operation
        self.known_soc = None      # {id: p.u.} known with certainty
        self.out = []
        self.n = -1
        self.states = set()
        clip = self.cfg["clip"] or (None, None)
        self.c1, self.c2 = [math.inf if c is None else float(c) for c in clip]
        self.cal = None            # (date_init, date) calendar model
        self.t_of_day = None
        self.t0s = []

    def bad(self, prop, kind, detail):
        if prop in self.props:
            self.out.append((prop, kind, "op %d: %s" % (self.n, detail)))

    def bad_any(self, kind, detail):
        for p in self.props:
            self.bad(p, kind, detail)

    # ------------------------------------------------------------------
    def see(self, op, rec):
        self.n += 1
        if op["op"] == "reset":
            self.on_reset(op, rec)
        elif op["op"] == "setdate":
            self.set_date(op, rec)
        else:
            self.on_step(op, rec)
        self.prev = rec["after"]
        self.states.add((self.status, op["op"], rec["exc"] or "ok", rec["term"],
                         tuple(sorted((op.get("fault") or {}).keys())), bool(op.get("bad"))))

    # ------------------------------------------------------------------
    def on_reset(self, op, rec):
        ref, cfg = self.ref, self.cfg
        ok = rec["exc"] is None
        fault, ctl = op.get("fault") or {}, op.get("ctl") or {}
        lin = "lin" in fault or "lin_draws" in fault
        disturbed = "interrupt" in fault or "qp" in fault or (lin and (fault.get("lin") or fault.get("lin_draws"))[0] == "raise")
        expected_failure = ctl.get("init") or disturbed
        draws = [x for k, x in rec["draws"] if k == "init"]
        after = rec["after"]
        if not expected_failure and rec["exc"] not in (None, "EnvInitializationError"):
            self.bad_any("exception", "reset raised %s: %s" % (rec["exc"], rec.get("exc_msg")))
        if "C12" in self.props and not disturbed:
            self.check_init_loop(op, rec, draws, ok)
        self.status = "live" if ok else "dirty_reset"
        self.known_soc = None
        self.cal = None
        if not ok:
            return
        s = after["sim"]
        if after["terminated"]:
            self.bad("C04", "reset_terminated", "terminated after a successful reset")
            self.bad("C12", "reset_terminated", "reset returned a terminal state")
        if s is None:
            self.bad_any("no_state", "no network state after reset")
            return
        P, Q, soc, pot = split_init(ref, draws[-1]) if draws else (None,) * 4
        if draws:
            self.known_soc = {i: min(max(soc[i], ref.dev[i].soc_min), ref.dev[i].soc_max) for i in ref.des_ids}
            for i in ref.des_ids:
                if not close(s[("des_soc", "pu", i)], self.known_soc[i]):
                    self.bad("C06", "initial_soc", "initial SoC of %d is %r, expected %r" %
                             (i, s[("des_soc", "pu", i)], self.known_soc[i]))
            if "C07" in self.props:
                self.check_setpoints(P, Q, P, pot, None, s)
        self.live_checks(rec, None if not draws else [float(v) for v in (draws[-1][len(draws[-1]) - cfg["K"]:])])
        if after["e_loss"] != 0 or after["penalty"] != 0:
            self.bad("C08", "reset_costs", "costs (%r, %r) after reset" % (after["e_loss"], after["penalty"]))
        if after["timestep"] != 0:
            self.bad("C01", "timestep", "timestep %r after reset" % after["timestep"])
        if "date" in after:
            self.calendar_reset(op, rec)
        if cfg["kind"] == "easy":
            self.profile(rec, True)

    def check_init_loop(self, op, rec, draws, ok):
        ref, n = self.ref, rec["n_init"]
        fault, ctl = op.get("fault") or {}, op.get("ctl") or {}
        init = ctl.get("init")
        m = fault.get("lin_draws", [None, 0])[1]
        all_faulty = "lin" in fault

        def excused(j):  # draw j (0-based) may be bad
            return all_faulty or j < m or not init_solvable(ref, draws[j], self.cfg["dt"])
        if n > 100:
            self.bad("C12", "too_many_draws", "%d draws" % n)
        if init and n >= init[1]:
            exp = "UserError" if init[0] == "exc" else "EnvInitializationError"
            if rec["exc"] != exp:
                self.bad("C12", "wrong_size_accepted", "draw %d was %s but reset gave %s" % (init[1], init[0], rec["exc"]))
            if n != init[1]:
                self.bad("C12", "draws_after_refusal", "%d draws, the %d-th was refused" % (n, init[1]))
            draws = draws[: init[1] - 1]
        elif ok:
            if n < 1:
                self.bad("C12", "no_draw", "reset returned without drawing an initial state")
                return
            for j in range(len(draws) - 1):
                if not excused(j):
                    self.bad("C12", "good_draw_skipped", "draw %d of %d is solvable but was not used" % (j + 1, n))
                    return
            if pf_mismatch(ref, rec["after"]["sim"]) > 1e-3:
                self.bad("C12", "bad_draw_used", "the initial state does not solve the power flow")
            P, _, soc, pot = split_init(ref, draws[-1])
            for i in ref.load_ids:
                e = min(max(P[i], ref.dev[i].p_min), ref.dev[i].p_max)
                if not close(rec["after"]["sim"][("dev_p", "pu", i)], e):
                    self.bad("C12", "wrong_draw_used", "load %d is at %r, the last draw said %r" %
                             (i, rec["after"]["sim"][("dev_p", "pu", i)], e))
            return
        elif rec["exc"] == "EnvInitializationError":
            if n != 100:
                self.bad("C12", "gave_up_early", "gave up after %d draws" % n)
        else:
            self.bad("C12", "wrong_error", "reset failed with %s: %s" % (rec["exc"], rec.get("exc_msg")))
        for j in range(len(draws)):
            if not excused(j):
                self.bad("C12", "good_draw_skipped", "draw %d of %d is solvable but was not used" % (j + 1, n))
                return

    # ------------------------------------------------------------------
    def on_step(self, op, rec):
        ref, cfg = self.ref, self.cfg
        before, after = self.prev, rec["after"]
        fault, ctl = op.get("fault") or {}, op.get("ctl") or {}
        status = self.status
        if status in ("unset", "dirty_reset"):
            return
        if op.get("bad"):
            if rec["exc"] is None and status != "dirty":
                self.bad("C11", "accepted", "a step with an invalid action (%s) was accepted" % op["bad"])
            if status != "dirty":
                self.unchanged("C11", before, after, "a refused step")
                if any(not same(before["sim"].get(k), v) for k, v in (after["sim"] or {}).items() if k[0] == "des_soc"):
                    self.bad("C06", "soc_moved", "a refused step changed the state of charge")
                self.calendar_same(rec)
            return
        if status == "terminal":
            self.terminal_step(op, rec)
            return
        if status == "dirty":
            # An earlier call failed half-way: only stateless properties are judged.
            if rec["exc"] is None and not rec["term"] and rec["n_next"] and "lin" not in fault:
                self.live_checks(rec, None)
                self.reward_check(rec)
            if rec["exc"] is None and rec["term"]:
                self.status = "terminal_dirty"
            return
        if status == "terminal_dirty":
            return
        # -- live --
        v = ctl.get("vars")
        if v:
            if rec["exc"] is None:
                self.bad("C11", "accepted", "a step whose sampled variables are %s was accepted" % v)
            self.unchanged("C11", before, after, "a refused step (%s)" % v)
            self.calendar_same(rec)
            return
        if rec["exc"] is not None:
            if "interrupt" in fault or "qp" in fault or ("lin" in fault and fault["lin"][0] == "raise"):
                self.status = "dirty"
                self.known_soc = None
                if "interrupt" not in fault:
                    self.calendar_same(rec)
            else:
                self.bad_any("exception", "a valid step raised %s: %s" % (rec["exc"], rec.get("exc_msg")))
                self.status = "dirty"
                self.known_soc = None
            return
        if rec["n_next"] != 1:
            self.bad("C04", "sampling", "a live step sampled the internal variables %d times" % rec["n_next"])
        draws = [x for k, x in rec["draws"] if k == "next"]
        load, pot, aux = split_vars(ref, draws[-1]) if draws else (None, None, None)
        s = after["sim"]
        P = {i: x[0] for i, x in ref.split_action(rec["action"]).items()}
        Q = {i: x[1] for i, x in ref.split_action(rec["action"]).items()}
        if rec["term"] != after["terminated"]:
            self.bad("C04", "flag", "terminated flag %r but env.terminated %r" % (rec["term"], after["terminated"]))
        if "C07" in self.props and draws and s is not None:
            self.check_setpoints(P, Q, load, pot, self.known_soc, s)
        if rec["term"]:
            self.on_collapse(op, rec, P, Q, load, pot)
            self.calendar_step(rec)
            if cfg["kind"] == "easy":
                self.t_of_day = None
            return
        # transition to a live state
        if "C04" in self.props:
            m = pf_mismatch(ref, s)
            if not m <= 1e-3:
                self.bad("C04", "undetected_collapse", "the power flow is not solved (mismatch %r) but the step is "
                         "not terminal" % m)
        self.ledger(s)
        self.live_checks(rec, aux)
        self.reward_check(rec)
        if after["timestep"] != before["timestep"] + 1:
            self.bad("C01", "timestep", "timestep went from %r to %r" % (before["timestep"], after["timestep"]))
        self.calendar_step(rec)
        if cfg["kind"] == "easy":
            self.profile(rec, False)

    def unchanged(self, prop, before, after, what):
        d = diff(before, after)
        if d:
            self.bad(prop, "changed", "%s changed the environment: %s" % (what, d))

    # -- collapse --------------------------------------------------------
    def on_collapse(self, op, rec, P, Q, load, pot):
        ref, after = self.ref, rec["after"]
        self.status = "terminal"
        n = self.obs_size()
        if rec["obs"] is None or rec["obs"].shape != (n,) or np.any(rec["obs"] != 0):
            self.bad("C04", "terminal_obs", "observation %r on collapse, expected %d zeros" % (rec["obs"], n))
        g = self.cfg["gamma"]
        exp = -math.inf if g == 1 or math.isinf(self.c2) else -self.c2 / (1 - g)
        if self.c2 > 0 and not close(rec["reward"], exp):
            self.bad("C04", "collapse_reward", "reward %r on collapse, expected %r" % (rec["reward"], exp))
        if "C05" in self.props and "lin" not in (op.get("fault") or {}):
            inj = None
            s = after["sim"]
            if s is not None:
                inj = injections(ref, s)
            if inj is None and self.known_soc is not None and load is not None:
                inj = request_injections(ref, P, Q, load, pot, self.known_soc, self.cfg["dt"])
            if inj is not None and easily_solvable(ref, inj):
                self.bad("C05", "false_collapse", "a solvable operating point was reported as collapsed: %r" % inj)
        s = after["sim"]
        if s is not None:
            for i in ref.des_ids:
                x = s[("des_soc", "pu", i)]
                if not (ref.dev[i].soc_min - EXACT <= x <= ref.dev[i].soc_max + EXACT):
                    self.bad("C06", "soc_range", "SoC of %d is %r" % (i, x))
        self.known_soc = None

    def terminal_step(self, op, rec):
        n = self.obs_size()
        if (op.get("ctl") or {}).get("vars") is None and rec["exc"] is not None and clean(op):
            self.bad("C04", "exception", "a valid step after collapse raised %s: %s" % (rec["exc"], rec.get("exc_msg")))
            return
        if rec["exc"] is not None:
            if "interrupt" in (op.get("fault") or {}):
                self.status = "terminal_dirty"
                self.cal = None
                return
            if rec["n_next"]:
                self.bad("C04", "not_absorbing", "a step after collapse sampled the internal variables")
            else:
                self.bad("C04", "exception", "a valid step after collapse raised %s: %s" % (rec["exc"], rec.get("exc_msg")))
            self.status = "terminal_dirty"
            return
        if rec["n_next"]:
            self.bad("C04", "not_absorbing", "a step after collapse sampled the internal variables")
        if rec["term"] is not True:
            self.bad("C04", "not_absorbing", "a step after collapse is not terminal")
        if rec["reward"] != 0:
            self.bad("C04", "absorbing_reward", "reward %r after collapse" % rec["reward"])
        if rec["obs"] is None or rec["obs"].shape != (n,) or np.any(rec["obs"] != 0):
            self.bad("C04", "terminal_obs", "observation %r after collapse, expected %d zeros" % (rec["obs"], n))
        b = {k: v for k, v in self.prev.items() if k not in ("date", "year_count")}
        a = {k: v for k, v in rec["after"].items() if k not in ("date", "year_count")}
        self.unchanged("C04", b, a, "a step after collapse")
        if b["sim"] is not None and any(not same(b["sim"][k], v) for k, v in (a["sim"] or {}).items() if k[0] == "des_soc"):
            self.bad("C06", "soc_moved", "a step after collapse changed the state of charge")
        self.calendar_step(rec)

    # -- energy ----------------------------------------------------------
    def ledger(self, s):
        ref, dt_ = self.ref, self.cfg["dt"]
        new = {}
        for i in ref.des_ids:
            d, x, p = ref.dev[i], s[("des_soc", "pu", i)], s[("dev_p", "pu", i)]
            new[i] = x
            if not (d.soc_min - EXACT <= x <= d.soc_max + EXACT):
                self.bad("C06", "soc_range", "SoC of %d is %r, outside [%r, %r]" % (i, x, d.soc_min, d.soc_max))
            if self.known_soc is None:
                continue
            old = self.known_soc[i]
            e = old - dt_ * (p * d.eff if p <= 0 else p / d.eff)
            c = min(max(e, d.soc_min), d.soc_max)
            slackness = QP_TOL * (1 + abs(p)) * dt_ / d.eff
            if not close(x, c):
                self.bad("C06", "ledger", "SoC of %d went from %r to %r with p=%r during %r h (efficiency %r), expected %r"
                         % (i, old, x, p, dt_, d.eff, e))
            elif abs(e - c) > slackness:
                self.bad("C06", "created", "unit %d injected %r from a SoC of %r (only %r was exchanged)" % (i, p, old, x - old))
        self.known_soc = new

    # -- set-points --------------------------------------------------------
    def check_setpoints(self, P, Q, load, pot, soc, s):
        ref, dt_ = self.ref, self.cfg["dt"]
        for i in ref.dev_ids:
            d = ref.dev[i]
            if d.is_slack:
                continue
            p, q = s[("dev_p", "pu", i)], s[("dev_q", "pu", i)]
            if d.type == -1:
                e = min(max(load[i], d.p_min), d.p_max)
                if not (close(p, e) and close(q, e * d.qp)):
                    self.bad("C07", "load", "load %d is at (%r, %r), expected (%r, %r)" % (i, p, q, e, e * d.qp))
                continue
            pp = None
            if d.type in (1, 2):
                pp = min(max(pot[i], d.p_min), d.p_max)
                if not close(s[("gen_p_max", "pu", i)], pp):
                    self.bad("C07", "gen_p_max", "available power of %d is %r, expected %r" %
                             (i, s[("gen_p_max", "pu", i)], pp))
                x = d.project(P[i], Q[i], pp)
                viol = d.violation(p, q, pp)
            elif soc is not None:
                x = d.project(P[i], Q[i], None, soc[i], dt_)
                viol = d.violation(p, q, None, soc[i], dt_)
            else:  # initial state or unknown SoC: the static region only
                viol = d.violation(p, q)
                x = None
                if d.violation(P[i], Q[i]) < -1e-6 and abs(P[i]) * dt_ / d.eff < 0.99 * (d.soc_max - d.soc_min):
                    x = (P[i], Q[i])
            tol = QP_TOL * (1 + abs(P[i]) + abs(Q[i]))
            if not viol <= tol:
                self.bad("C07", "infeasible", "device %d injects (%r, %r), outside its operating region by %r" % (i, p, q, viol))
            elif x is not None and not (abs(p - x[0]) <= tol and abs(q - x[1]) <= tol):
                self.bad("C07", "not_closest", "device %d: request (%r, %r) applied as (%r, %r), closest feasible (%r, %r)" %
                         (i, P[i], Q[i], p, q, x[0], x[1]))

    # -- live states -------------------------------------------------------
    def obs_size(self):
        o = self.cfg["obs"]
        if isinstance(o, dict):
            return len(OBS_FUNCS[o["callable"]](np.zeros(self.ref.n_state(self.cfg["K"]))))
        return len(expand_obs(self.cfg))

    def live_checks(self, rec, aux):
        ref, cfg, after = self.ref, self.cfg, rec["after"]
        s = after["sim"]
        if "C05" in self.props:
            for k, d in check_power_flow(ref, s):
                self.bad("C05", k, d)
        if "C09" in self.props:
            self.check_obs(rec, aux)

    def check_obs(self, rec, aux):
        ref, cfg, after = self.ref, self.cfg, rec["after"]
        s, st, obs = after["sim"], after["state"], rec["obs"]
        exp = [s[("dev_p", "MW", i)] for i in ref.dev_ids] + [s[("dev_q", "MVAr", i)] for i in ref.dev_ids]
        exp += [s[("des_soc", "MWh", i)] for i in ref.des_ids] + [s[("gen_p_max", "MW", i)] for i in ref.gen_ids]
        K = cfg["K"]
        if st is None or st.shape != (len(exp) + K,):
            self.bad("C09", "state_size", "state vector %r, expected %d entries" % (st, len(exp) + K))
            return
        exp = exp + (aux if aux is not None else list(st[len(exp):]))
        for k, (a, b) in enumerate(zip(st, exp)):
            if not close(float(a), b):
                self.bad("C09", "state_entry", "entry %d of the state vector is %r, expected %r" % (k, float(a), b))
                return
        sp = self.slot.env.observation_space
        if sp.shape != obs.shape or not (np.all(obs >= sp.low) and np.all(obs <= sp.high)) or np.any(np.isnan(obs)):
            self.bad("C09", "not_contained", "observation %r outside its space" % (obs,))
            return
        if isinstance(cfg["obs"], dict):
            e = np.array(OBS_FUNCS[cfg["obs"]["callable"]](np.array(st)), dtype=float)
            if e.shape != obs.shape or not all(close(float(a), float(b)) for a, b in zip(obs, e)):
                self.bad("C09", "obs_function", "observation %r, the user's function gives %r" % (obs, e))
            return
        spec = expand_obs(cfg)
        if obs.shape != (len(spec),):
            self.bad("C09", "obs_size", "%d entries, expected %d" % (len(obs), len(spec)))
            return
        for k, (key, i, u) in enumerate(spec):
            if key == "aux":
                x = float(st[len(st) - K + i])
                ab = cfg["aux_bounds"]
                lo, hi = (-math.inf, math.inf) if ab is None else ab[i]
            else:
                x = s[(key, u, i)]
                lo, hi = ref.bounds(key, i, u)
                tol = 1e-9 * (1 + abs(x))
            if not (close(float(sp.low[k]), lo) and close(float(sp.high[k]), hi)):
                if key in ("dev_p", "dev_q", "des_soc", "gen_p_max", "bus_p", "bus_q", "aux") or \
                        not (sp.low[k] <= x <= sp.high[k]):
                    self.bad("C09", "obs_bounds", "entry %d (%s of %s in %s): declared bounds (%r, %r), the description "
                             "gives (%r, %r)" % (k, key, i, u, float(sp.low[k]), float(sp.high[k]), lo, hi))
                    return
            e = min(max(x, lo), hi)
            if not close(float(obs[k]), e):
                self.bad("C09", "obs_entry", "entry %d (%s of %s in %s) is %r, expected %r" % (k, key, i, u, float(obs[k]), e))
                return

    def reward_check(self, rec):
        if "C08" not in self.props:
            return
        ref, cfg, after = self.ref, self.cfg, rec["after"]
        s, dt_ = after["sim"], cfg["dt"]
        e = 0.0
        for d in ref.dev.values():
            p = s[("dev_p", "pu", d.id)]
            if d.type != 3:
                e += p
            if d.type == 2:
                e += max(0.0, s[("gen_p_max", "pu", d.id)] - p)
        e *= dt_
        pen = 0.0
        for i in ref.bus_ids:
            v = s[("bus_v_magn", "pu", i)]
            b = ref.bus[i]
            pen += max(0.0, v - b["vmax"]) + max(0.0, b["vmin"] - v)
        V = voltages(ref, s)
        for br in ref.branches:
            yff, yft, ytf, ytt = ref.pi(br)
            f, t = br["f"], br["t"]
            flow = max(abs(V[f] * (yff * V[f] + yft * V[t]).conjugate()), abs(V[t] * (ytf * V[f] + ytt * V[t]).conjugate()))
            pen += max(0.0, flow - br["rate"])
        pen *= dt_ * cfg["lamb"]
        ce = math.copysign(min(abs(e), self.c1), e)
        cp = min(max(pen, 0.0), self.c2)
        tol = 1e-9 * (1 + abs(pen) + abs(e) + cfg["lamb"])
        for name, a, b in (("e_loss", after["e_loss"], ce), ("penalty", after["penalty"], cp),
                           ("reward", rec["reward"], -(ce + cp))):
            if not (abs(a - b) <= tol):
                self.bad("C08", name, "%s is %r, expected %r" % (name, a, b))

    # -- calendar ------------------------------------------------------------
    def calendar_reset(self, op, rec):
        a = rec["after"]
        step = dt.timedelta(hours=self.cfg["dt"])
        opt = op.get("options")
        off = dt.timedelta(0)
        if self.cfg["kind"] == "easy":
            off = float(a["state"][-1]) * step
        if opt is not None:
            exp = dt.datetime(*opt) + off
            if a["date"] != exp:
                self.bad("C20", "initial_date", "date %s after reset, expected %s" % (a["date"], exp))
        else:
            m = a["date"] - off
            if (m.hour, m.minute, m.second, m.microsecond) != (0, 0, 0, 0) or m.year != 2020:
                self.bad("C20", "initial_date", "date %s after reset is not a midnight in 2020 plus the time of day" % a["date"])
        if a["year_count"] != 0:
            self.bad("C20", "year_count", "year count %r after reset" % a["year_count"])
        self.cal = [a["date"], 0]

    def set_date(self, op, rec):
        a, d = rec["after"], dt.datetime(*op["options"])
        if rec["exc"] is not None:
            self.bad("C20", "exception", "reset_date raised %s: %s" % (rec["exc"], rec.get("exc_msg")))
        elif a["date"] != d or a["year_count"] != 0:
            self.bad("C20", "set_date", "date %s and year count %r after reset_date(%s)" % (a["date"], a["year_count"], d))
        if self.cal is not None:
            self.cal = [d, 0]

    def calendar_step(self, rec):
        if self.cal is None or "date" not in rec["after"]:
            return
        self.cal[1] += 1
        d0, n = self.cal
        exp = d0 + n * dt.timedelta(hours=self.cfg["dt"])
        a = rec["after"]
        if abs(a["date"] - exp) > n * dt.timedelta(microseconds=1):
            self.bad("C20", "date", "date %s after %d steps from %s, expected %s" % (a["date"], n, d0, exp))
        yc = (a["date"] - d0).days // 365
        if a["year_count"] != yc:
            self.bad("C20", "year_count", "year count %r, expected %r (%s since %s)" % (a["year_count"], yc, a["date"], d0))

    def calendar_same(self, rec):
        if "date" in rec["after"] and self.prev and (
                rec["after"]["date"] != self.prev["date"] or rec["after"]["year_count"] != self.prev["year_count"]):
            self.bad("C20", "refused_advances", "a refused step moved the date from %s to %s" %
                     (self.prev["date"], rec["after"]["date"]))

    # -- easy task --------------------------------------------------------------
    def profile(self, rec, reset):
        from .profile import LOADS, GENS
        a = rec["after"]
        t = float(a["state"][-1])
        if reset:
            if t != int(t) or not 0 <= t <= 95:
                self.bad("C21", "start_time", "time of day %r after reset" % t)
                return
            self.t0s.append(int(t))
        elif self.t_of_day is not None and t != (self.t_of_day + 1) % 96:
            self.bad("C21", "time_of_day", "time of day went from %r to %r" % (self.t_of_day, t))
            return
        if t != int(t) or not 0 <= t <= 95:
            self.bad("C21", "time_of_day", "time of day %r" % t)
            return
        self.t_of_day = int(t)
        s = a["sim"]
        for k, i in enumerate((1, 3, 5)):
            if not close(s[("dev_p", "MW", i)], LOADS[k][int(t)]):
                self.bad("C21", "load", "load %d draws %r at quarter-hour %d, profile %r" %
                         (i, s[("dev_p", "MW", i)], t, LOADS[k][int(t)]))
        for k, i in enumerate((2, 4)):
            cap = self.ref.dev[i].p_max * self.ref.base
            if not close(s[("gen_p_max", "MW", i)], min(GENS[k][int(t)], cap)):
                self.bad("C21", "generation", "generator %d has %r available at quarter-hour %d, profile %r" %
                         (i, s[("gen_p_max", "MW", i)], t, GENS[k][int(t)]))
