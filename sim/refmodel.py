"""Executable reference model of a distribution network.

Written from the documentation (network dictionary format, gym-anm paper
equations), independently of the code in /repo: it never imports gym_anm.
All quantities are in per-unit unless the name says otherwise.
"""
import math
import numpy as np

INF = math.inf


def _f(x, default):
    return default if x is None else float(x)


class RefDevice:
    """type: -1 load, 0 slack, 1 classical, 2 renewable, 3 storage."""

    def __init__(self, row, base):
        r = list(row)
        self.id, self.bus, self.type = int(r[0]), int(r[1]), int(r[2])
        qp, pmax, pmin, qmax, qmin, pp, pm, qp_, qm, smax, smin, eff = r[3:15]
        self.qp = None if qp is None else float(qp)
        self.is_slack = self.type == 0
        sc = lambda v, d: d if v is None else float(v) / base
        self.cuts = []  # half planes (a, b, c): a*p + b*q <= c
        self.soc_min = self.soc_max = self.eff = None
        if self.type == -1:
            self.p_max, self.p_min = sc(pmax, 0.0), sc(pmin, -INF)
            qs = [0.0 if self.qp == 0 else b * self.qp for b in (self.p_min, self.p_max)]
            self.q_min, self.q_max = min(qs), max(qs)
            return
        self.p_max = sc(pmax, INF)
        self.p_min = sc(pmin, 0.0 if self.type in (1, 2) else -INF)
        self.q_max, self.q_min = sc(qmax, INF), sc(qmin, -INF)
        p_plus = sc(pp, self.p_max)
        q_plus, q_minus = sc(qp_, self.q_max), sc(qm, self.q_min)
        if not self.is_slack and p_plus < self.p_max:
            # straight lines (p_plus, q_max)-(p_max, q_plus) and (p_plus, q_min)-(p_max, q_minus)
            if q_plus < self.q_max:
                s = (q_plus - self.q_max) / (self.p_max - p_plus)
                self.cuts.append((-s, 1.0, self.q_max - s * p_plus))
            if q_minus > self.q_min:
                s = (q_minus - self.q_min) / (self.p_max - p_plus)
                self.cuts.append((s, -1.0, -(self.q_min - s * p_plus)))
        if self.type == 3:
            p_minus = sc(pm, self.p_min)
            if p_minus > self.p_min:
                if q_plus < self.q_max:
                    s = (self.q_max - q_plus) / (p_minus - self.p_min)
                    self.cuts.append((-s, 1.0, self.q_max - s * p_minus))
                if q_minus > self.q_min:
                    s = (self.q_min - q_minus) / (p_minus - self.p_min)
                    self.cuts.append((s, -1.0, -(self.q_min - s * p_minus)))
            self.soc_max, self.soc_min = float(smax) / base, _f(smin, 0.0) / base
            self.eff = 1.0 if eff is None else float(eff)

    def half_planes(self, p_pot=None, soc=None, dt=None):
        hp = [(1.0, 0.0, self.p_max), (-1.0, 0.0, -self.p_min), (0.0, 1.0, self.q_max), (0.0, -1.0, -self.q_min)]
        if p_pot is not None:
            hp.append((1.0, 0.0, p_pot))
        if soc is not None:
            hp.append((1.0, 0.0, self.eff * (soc - self.soc_min) / dt))
            hp.append((-1.0, 0.0, (self.soc_max - soc) / (dt * self.eff)))
        return [h for h in hp + self.cuts if math.isfinite(h[2])]

    def project(self, p, q, p_pot=None, soc=None, dt=None):
        return project(p, q, self.half_planes(p_pot, soc, dt))

    def violation(self, p, q, p_pot=None, soc=None, dt=None):
        """How far outside of the operating region (p, q) lies (<= 0: inside)."""
        worst = -INF
        for a, b, c in self.half_planes(p_pot, soc, dt):
            worst = max(worst, (a * p + b * q - c) / math.hypot(a, b))
        return worst


def project(p, q, hps):
    """Exact Euclidean projection onto a polygon given by half planes."""
    eps = 1e-11
    scale = 1.0 + max([abs(c) for _, _, c in hps] + [0.0])

    def feas(x, y):
        return all(a * x + b * y <= c + eps * scale * math.hypot(a, b) for a, b, c in hps)

    if feas(p, q):
        return p, q
    best, bd = None, INF
    cand = []
    for a, b, c in hps:
        n2 = a * a + b * b
        t = (a * p + b * q - c) / n2
        if t > 0:
            cand.append((p - a * t, q - b * t))
    for i in range(len(hps)):
        for j in range(i):
            a1, b1, c1 = hps[i]
            a2, b2, c2 = hps[j]
            det = a1 * b2 - a2 * b1
            if abs(det) > 1e-14:
                cand.append(((c1 * b2 - c2 * b1) / det, (a1 * c2 - a2 * c1) / det))
    for x, y in cand:
        d = (x - p) ** 2 + (y - q) ** 2
        if d < bd and feas(x, y):
            best, bd = (x, y), d
    return best


class RefNetwork:
    def __init__(self, net):
        self.base = float(net["baseMVA"])
        self.bus = {}
        for r in net["bus"]:
            self.bus[int(r[0])] = {"slack": int(r[1]) == 0, "kv": float(r[2]), "vmax": float(r[3]),
                                   "vmin": _f(r[4], 0.0)}
        self.bus_ids = sorted(self.bus)
        self.slack_bus = [i for i in self.bus_ids if self.bus[i]["slack"]][0]
        self.v_slack = self.bus[self.slack_bus]["vmax"]
        self.branches = []  # in the given order
        for r in net["branch"]:
            rr, x, b = _f(r[2], 0.0), _f(r[3], 0.0), _f(r[4], 0.0)
            rate = INF if r[5] is None else float(r[5]) / self.base
            tap = _f(r[6], 1.0) * np.exp(1j * math.radians(_f(r[7], 0.0)))
            self.branches.append({"f": int(r[0]), "t": int(r[1]), "y": 1.0 / complex(rr, x), "sh": 0.5j * b,
                                  "rate": rate, "tap": tap})
        self.dev = {}
        for r in net["device"]:
            d = RefDevice(r, self.base)
            self.dev[d.id] = d
        self.dev_ids = sorted(self.dev)
        self.load_ids = [i for i in self.dev_ids if self.dev[i].type == -1]
        self.gen_ids = [i for i in self.dev_ids if self.dev[i].type in (1, 2)]
        self.des_ids = [i for i in self.dev_ids if self.dev[i].type == 3]
        self.slack_id = [i for i in self.dev_ids if self.dev[i].is_slack][0]
        # admittance matrix from the pi-model, in bus_ids order
        self.idx = {i: k for k, i in enumerate(self.bus_ids)}
        n = len(self.bus_ids)
        Y = np.zeros((n, n), complex)
        for br in self.branches:
            f, t = self.idx[br["f"]], self.idx[br["t"]]
            yff, yft, ytf, ytt = self.pi(br)
            Y[f, f] += yff; Y[f, t] += yft; Y[t, f] += ytf; Y[t, t] += ytt
        self.Y = Y

    @staticmethod
    def pi(br):
        y, sh, t = br["y"], br["sh"], br["tap"]
        return (y + sh) / abs(t) ** 2, -y / np.conj(t), -y / t, y + sh

    def n_state(self, K):
        return 2 * len(self.dev_ids) + len(self.des_ids) + len(self.gen_ids) + K

    def n_vars(self, K):
        return len(self.load_ids) + len(self.gen_ids) + K

    def action_bounds(self):
        """(low, high) in MW / MVAr: P gens, Q gens, P storage, Q storage."""
        lo, hi = [], []
        for ids, a, b in ((self.gen_ids, "p_min", "p_max"), (self.gen_ids, "q_min", "q_max"),
                          (self.des_ids, "p_min", "p_max"), (self.des_ids, "q_min", "q_max")):
            for i in ids:
                lo.append(getattr(self.dev[i], a) * self.base)
                hi.append(getattr(self.dev[i], b) * self.base)
        return np.array(lo), np.array(hi)

    def split_action(self, a):
        """{device id: (p, q)} in p.u."""
        G, S = len(self.gen_ids), len(self.des_ids)
        out = {}
        for k, i in enumerate(self.gen_ids):
            out[i] = (float(a[k]) / self.base, float(a[G + k]) / self.base)
        for k, i in enumerate(self.des_ids):
            out[i] = (float(a[2 * G + k]) / self.base, float(a[2 * G + S + k]) / self.base)
        return out

    # -- power flow -----------------------------------------------------
    def newton(self, s, maxit=60, tol=1e-9):
        """s: {bus: complex injection} for non-slack buses. Returns (iterations or None, V)."""
        order = [self.slack_bus] + [i for i in self.bus_ids if i != self.slack_bus]
        ix = [self.idx[i] for i in order]
        Y = self.Y[np.ix_(ix, ix)]
        S = np.array([s[i] for i in order[1:]], complex)
        n = len(order) - 1
        th, vm = np.zeros(n), np.ones(n)
        with np.errstate(all="ignore"):
            for it in range(maxit):
                v = np.concatenate(([self.v_slack + 0j], vm * np.exp(1j * th)))
                I = Y @ v
                mis = (v * np.conj(I))[1:] - S
                F = np.concatenate((mis.real, mis.imag))
                m = np.max(np.abs(F)) if n else 0.0
                if not np.isfinite(m):
                    return None, None
                if m <= tol:
                    V = dict(zip(order, v))
                    return it, V
                dVa = 1j * np.diag(v) @ np.conj(np.diag(I) - Y @ np.diag(v))
                dVm = np.diag(v / abs(v)) @ np.conj(np.diag(I)) + np.diag(v) @ np.conj(Y @ np.diag(v / abs(v)))
                J = np.block([[dVa[1:, 1:].real, dVm[1:, 1:].real], [dVa[1:, 1:].imag, dVm[1:, 1:].imag]])
                try:
                    dx = np.linalg.solve(J, F)
                except np.linalg.LinAlgError:
                    return None, None
                th, vm = th - dx[:n], vm - dx[n:]
        return None, None

    def bounds(self, key, i, unit):
        """Declared range of an observable quantity."""
        b = self.base
        if key in ("dev_p", "dev_q", "des_soc", "gen_p_max"):
            d = self.dev[i]
            lo, hi = {"dev_p": (d.p_min, d.p_max), "dev_q": (d.q_min, d.q_max),
                      "des_soc": (d.soc_min, d.soc_max), "gen_p_max": (d.p_min, d.p_max)}[key]
            return (lo, hi) if unit == "pu" else (lo * b, hi * b)
        if key in ("bus_p", "bus_q"):
            c = key[-1]
            ds = [d for d in self.dev.values() if d.bus == i]
            lo, hi = sum(getattr(d, c + "_min") for d in ds), sum(getattr(d, c + "_max") for d in ds)
            return (lo, hi) if unit == "pu" else (lo * b, hi * b)
        if key == "bus_v_magn" and i == self.slack_bus:
            v = self.v_slack * (self.bus[i]["kv"] if unit == "kV" else 1.0)
            return v, v
        if key == "bus_v_ang" and i == self.slack_bus:
            return 0.0, 0.0
        if key in ("bus_v_ang", "bus_i_ang", "branch_i_ang"):
            return (-180.0, 180.0) if unit == "degree" else (-math.pi, math.pi)
        return -INF, INF


def flatten_sim_state(st):
    """{(quantity, unit, id): float} from the nested record of the simulator."""
    return {(k, u, i): v for k, us in st.items() for u, vals in us.items() for i, v in vals.items()}
