"""Random network descriptions (JSON-able) and environment configurations."""
import math


def _r(x):
    return float("%.6g" % x)


def network(rng, mode=None, dc=False):
    """rng: random.Random.  Values are drawn in p.u. and scaled by baseMVA.

    mode: None (anything), "loads" (loads only: fast), "small".
    dc: restrict to what the DC planning model supports (x > 0, no shifts/taps off).
    """
    base = rng.choice([1, 10, 100, 37.5, 1.0, 100.0])
    n = rng.choice([2, 2, 3, 3, 4, 5, 6]) if mode != "small" else rng.choice([2, 2, 3])
    if rng.random() < 0.5:
        ids = list(range(n))
    else:
        ids = sorted(rng.sample(range(0, 25), n))
    slack = ids[0] if rng.random() < 0.5 else rng.choice(ids)
    order = ids[:]
    if rng.random() < 0.4:
        rng.shuffle(order)
    tight = rng.random() < 0.5
    bus = []
    for i in order:
        kv = rng.choice([0.4, 11, 33, 132, 33.0])
        if i == slack:
            vmax = rng.choice([1.0, 1.0, 1.0, 1.02, 1.05, 0.98, 1.1])
            bus.append([i, 0, kv, vmax, rng.choice([vmax, 0.9, 1.0, None]) if rng.random() < 0.3 else vmax])
        else:
            vmax = _r(rng.uniform(1.0, 1.03) if tight else rng.choice([1.05, 1.1, 1.1, 1.2]))
            bus.append([i, 1, kv, vmax, _r(rng.uniform(0.95, 1.0)) if tight else rng.choice([0.9, 0.9, 0.95, 0.8])])
    # branches: random spanning tree plus a few loops
    links, conn = [], [rng.choice(ids)]
    rest = [i for i in ids if i != conn[0]]
    rng.shuffle(rest)
    for i in rest:
        j = rng.choice(conn)
        links.append((i, j) if rng.random() < 0.5 else (j, i))
        conn.append(i)
    pairs = [(i, j) for i in ids for j in ids if i < j and (i, j) not in links and (j, i) not in links]
    rng.shuffle(pairs)
    for i, j in pairs[: rng.choice([0, 0, 0, 1, 2])]:
        links.append((i, j) if rng.random() < 0.5 else (j, i))
    rng.shuffle(links)
    branch = []
    for f, t in links:
        r = _r(rng.uniform(0.002, 0.06))
        x = _r(rng.uniform(0.01, 0.15))
        k = rng.random()
        if k < 0.06:
            r = None if rng.random() < 0.5 else 0.0
        elif k < 0.10 and not dc:
            x = None if rng.random() < 0.5 else 0.0
        b = rng.choice([0.0, 0.0, None, 0.01, 0.05])
        rate = None if rng.random() < 0.1 else _r(base * rng.choice([0.05, 0.1, 0.2, 0.3, 0.6, 1.5]))
        tap, shift = None, None
        if rng.random() < 0.35:
            tap = rng.choice([1, 1.0, 0.95, 1.05, 0.98])
            if rng.random() < 0.5 and not dc:
                shift = rng.choice([0, 0.0, 2.0, 10.0, 30.0, 350.0])
        branch.append([f, t, r, x, b, rate, tap, shift])
    # devices
    specs = []
    kinds = []
    nd = rng.choice([1, 2, 3, 3, 4, 5]) if mode != "small" else rng.choice([1, 2, 2, 3])
    for _ in range(nd):
        if mode == "loads":
            kinds.append(-1)
        else:
            kinds.append(rng.choice([-1, -1, 1, 2, 2, 3, 3]))
    if mode == "storage" and 3 not in kinds:
        kinds[0] = 3
    if mode == "gens" and not any(k in (1, 2) for k in kinds):
        kinds[0] = rng.choice([1, 2])
    nonslack = [i for i in ids if i != slack]
    for k in kinds:
        b = rng.choice(nonslack) if rng.random() < 0.85 else slack
        specs.append(_device(rng, k, b, base))
    big = _r(base * 50)
    specs.append([None, slack, 0, None, rng.choice([None, big]), rng.choice([None, -big]),
                  rng.choice([None, big]), rng.choice([None, -big])] + [None] * 7)
    if rng.random() < 0.5:
        dids = list(range(len(specs)))
        if rng.random() < 0.5:
            specs = [specs[-1]] + specs[:-1]
    else:
        dids = rng.sample(range(0, 30), len(specs))
    for s, d in zip(specs, dids):
        s[0] = d
    if rng.random() < 0.4:
        rng.shuffle(specs)
    return {"baseMVA": base, "bus": bus, "branch": branch, "device": specs}


def _device(rng, kind, bus, base):
    row = [None, bus, kind] + [None] * 12
    sc = lambda x: _r(x * base)
    if kind == -1:
        row[3] = rng.choice([0.2, 0.3, 0.0, -0.2, 0.5])
        k = rng.random()
        row[5] = None if k < 0.1 else sc(-rng.uniform(0.05, 0.35))
        row[4] = rng.choice([0, 0.0, None, 0.0, sc(-0.02)])
        return row
    q = rng.uniform(0.05, 0.4)
    if kind in (1, 2):
        pmax = rng.uniform(0.1, 0.6)
        row[4] = sc(pmax)
        row[5] = rng.choice([0, 0.0, None, sc(0.03)])
        k = rng.random()
        if k < 0.6:
            row[6], row[7] = sc(q), sc(-q * rng.choice([1, 0.5, 0.0]))
        elif k < 0.8:
            row[6], row[7] = sc(q), None
        if rng.random() < 0.08:
            row[4] = None
        elif row[6] is not None and rng.random() < 0.6:
            row[8] = sc(pmax * rng.uniform(0.3, 0.9))
            if row[5] and row[8] < row[5]:
                row[8] = row[5]
            row[10] = sc(q * rng.uniform(0.2, 0.9))
            if row[7] is not None:
                row[11] = _r(row[7] * rng.uniform(0.2, 0.9))
        return row
    pmax = rng.uniform(0.05, 0.5)
    pmin = rng.uniform(0.05, 0.5)
    row[4], row[5] = sc(pmax), sc(-pmin)
    row[6], row[7] = sc(q), sc(-q * rng.choice([1, 0.6]))
    k = rng.random()
    if k < 0.06:
        row[4] = None
    elif k < 0.12:
        row[5] = None
    elif k < 0.2:
        row[7] = None
    elif k < 0.7:
        row[8] = sc(pmax * rng.uniform(0.2, 0.9))
        row[9] = sc(-pmin * rng.uniform(0.2, 0.9))
        row[10] = sc(q * rng.uniform(0.2, 0.9))
        row[11] = _r(row[7] * rng.uniform(0.2, 0.9))
    smax = rng.choice([rng.uniform(0.02, 0.3), rng.uniform(0.3, 2.0)])
    row[12] = sc(smax)
    row[13] = rng.choice([0, 0.0, None, sc(smax * 0.2)])
    row[14] = rng.choice([None, 1.0, 0.9, 0.95, 0.7, 0.5])
    return row


UNITS = {
    "bus_p": ("MW", "pu"), "bus_q": ("MVAr", "pu"), "bus_v_magn": ("pu", "kV"), "bus_v_ang": ("degree", "rad"),
    "bus_i_magn": ("pu", "kA"), "bus_i_ang": ("degree", "rad"), "dev_p": ("MW", "pu"), "dev_q": ("MVAr", "pu"),
    "des_soc": ("MWh", "pu"), "gen_p_max": ("MW", "pu"), "branch_p": ("MW", "pu"), "branch_q": ("MVAr", "pu"),
    "branch_s": ("MVA", "pu"), "branch_i_magn": ("pu",), "branch_i_ang": ("degree", "rad"), "aux": (None,),
}  # the first one is the default


def obs_ids(net, key, K):
    if key == "aux":
        return list(range(K))
    if key.startswith("bus"):
        return sorted(r[0] for r in net["bus"])
    if key.startswith("dev"):
        return sorted(r[0] for r in net["device"])
    if key == "des_soc":
        return sorted(r[0] for r in net["device"] if r[2] == 3)
    if key == "gen_p_max":
        return sorted(r[0] for r in net["device"] if r[2] in (1, 2))
    return [[r[0], r[1]] for r in net["branch"]]


def observation(rng, net, K, kinds=("state", "state", "list", "list", "callable")):
    k = rng.choice(kinds)
    if k == "state":
        return "state"
    if k == "callable":
        return {"callable": rng.choice(["reverse", "ratio", "first", "ints"]), "bounds": rng.random() < 0.3}
    out = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        key = rng.choice(list(UNITS))
        ids = obs_ids(net, key, K)
        if not ids:
            continue
        sel = "all" if rng.random() < 0.4 else rng.sample(ids, rng.randint(1, len(ids)))
        if rng.random() < 0.5:
            out.append([key, sel])
        else:
            out.append([key, sel, rng.choice(UNITS[key])])
    return out or "state"


def config(rng, mode=None, obs_kinds=("state", "state", "list", "list", "callable"), gammas=(0.9, 0.995, 0.0, 0.5),
           dc=False):
    net = network(rng, mode, dc)
    _tame(net, rng)
    K = rng.choice([0, 0, 1, 1, 2, 3])
    aux_bounds = None
    if K and rng.random() < 0.5:
        aux_bounds = [[-_r(rng.uniform(0, 50)), _r(rng.uniform(0, 50))] for _ in range(K)]
    clip = rng.choice([None, [None, None], [1, 100], [0.05, 10], [None, 5.0], [0.01, None], [0.0, 0.5]])
    return {
        "kind": "grid", "net": net, "obs": observation(rng, net, K, obs_kinds), "K": K,
        "dt": rng.choice([0.25, 0.5, 1, 1.0, 1 / 60, 2.0, 0.1]), "gamma": rng.choice(list(gammas)),
        "lamb": rng.choice([100, 1000, 1, 0, 0.5]), "aux_bounds": aux_bounds, "clip": clip,
        "dyn": {"level": _r(rng.choice([0.4, 0.8, 1.0, 1.1])), "pot": _r(rng.choice([0.5, 1.0, 1.2])),
                "fb": rng.choice([0.0, 0.2])},
    }


def surgeable(cfg, rng):
    """Make sure some load has no lower limit, so that a demand surge collapses the grid."""
    net = cfg["net"]
    slack = [r[0] for r in net["bus"] if r[1] == 0][0]
    loads = [r for r in net["device"] if r[2] == -1 and r[1] != slack]
    if not loads:
        bus = rng.choice([r[0] for r in net["bus"] if r[0] != slack])
        row = _device(rng, -1, bus, net["baseMVA"])
        row[0] = max(r[0] for r in net["device"]) + rng.randint(1, 3)
        net["device"].append(row)
        loads = [row]
    rng.choice(loads)[5] = None
    return cfg


def stub_cable(net, rng):
    """A lossless unloaded cable at the slack bus: it carries reactive power only, and too much of it."""
    slack = [r for r in net["bus"] if r[1] == 0][0]
    i = max(r[0] for r in net["bus"]) + 1
    net["bus"].append([i, 1, slack[2], 1.3, 0.7])
    net["branch"].append([slack[0], i, 0.0, 0.05, rng.choice([0.2, 0.4]), _r(net["baseMVA"] * 0.02), None, None])


def is_finite(x):
    return x is not None and math.isfinite(x)


def _tame(net, rng):
    """Shorten the lines of networks that could hardly ever be live (most of the time)."""
    from .refmodel import RefNetwork
    for n in range(10):
        if n == 1:  # Newton's method may diverge from a flat start behind a large phase shift
            for b in net["branch"]:
                if b[7] and 5 < b[7] < 355:
                    b[7] = 2.0
        ref = RefNetwork(net)
        lo = {i: 0j for i in ref.bus_ids}
        hi = {i: 0j for i in ref.bus_ids}
        for d in ref.dev.values():
            if d.is_slack:
                continue
            f = lambda v, x: v if math.isfinite(v) else x
            a, b = f(d.p_min, -0.4), f(d.p_max, 0.5)
            lo[d.bus] += complex(a, a * d.qp) if d.type == -1 else complex(a if d.type == 3 else 0.0, f(d.q_min, -0.4))
            hi[d.bus] += complex(b, b * d.qp) if d.type == -1 else complex(b, f(d.q_max, 0.4))
        if all(_ok(ref.newton(x)) for x in (lo, hi)):
            return
        for b in net["branch"]:
            for k in (2, 3):
                if b[k]:
                    b[k] = _r(b[k] * 0.5)


def _ok(r):
    return r[0] is not None and min(abs(v) for v in r[1].values()) > 0.6
